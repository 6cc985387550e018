"""Engine event ids, timestamps and sessions"""
TECHNIQUE = ('stateful property testing of the real engine with generated '
             'modules, schedules and an observable backend (virtual time)')
NOTE = ('Histories of up to three successive engines over one backend; the '
        'content of every batch given to the backend is checked. A session '
        'which is being processed when the engine is closed may be dropped '
        '(its number is then skipped).')

from vlib import engine, gen
from vlib.core import Sub, check

from hat.event import common


def verify(run, ctx):
    attempts = run.attempts
    requests = engine.requests_of(run)
    outputs = {engine.key(e): i for i in run.trace
               for e in i.get('output') or []}
    faulty = run.module_failed or run.backend.failed

    last = run.last
    prev_time = None
    seen = set()
    for n, ((events, time, status, _), request) in enumerate(
            zip(attempts, requests)):
        check(events, 'empty session was registered')
        kind = engine.status_payload(events[0]) if request is None else None
        for i in events:
            check(gen.is_event(i), 'invalid event %r', i)
            check(i.id.server == engine.SERVER, 'invalid server id %r', i.id)

        # ids
        session = events[0].id.session
        check(session > last.session, 'session %s after session %s', session,
              last.session)
        if kind != 'STOPPED' or not run.interrupted:
            check(session == last.session + 1, 'session %s after session %s',
                  session, last.session)
        for i, event in enumerate(events):
            check(event.id == common.EventId(engine.SERVER, session, i + 1),
                  'event %s of session %s has id %r', i + 1, session,
                  event.id)
        last = events[-1].id

        # timestamps
        t = events[0].timestamp
        check(all(i.timestamp == t for i in events),
              'different timestamps in session %s', session)
        us = engine.to_us(t)
        begin = request.time if request else run.created_time
        check(begin <= us <= time and 0 <= t.us < 1_000_000,
              'timestamp of session %s is %s, requested %s, registered %s',
              session, us, begin, time)
        check(prev_time is None or us >= prev_time,
              'timestamp of session %s before timestamp of previous one',
              session)
        prev_time = time

        # content
        if request is None:
            check(kind is not None, 'session of unknown origin %r', events)
            check(events[0].source_timestamp is None,
                  'status event with source timestamp')
            if kind == 'STARTED':
                check(n == 0, 'STARTED is session %s', n + 1)
            else:
                check(n == len(attempts) - 1 and (n or run.interrupted),
                      'STOPPED is session %s of %s', n + 1, len(attempts))
            count = 1
            if kind == 'STOPPED':
                check(len(events) == 1, 'STOPPED session has other events')
        else:
            check(n > 0, 'session %r before STARTED', events)
            check(id(request) not in seen,
                  'two sessions of single registration')
            seen.add(id(request))
            count = len(request.events)
            check(len(events) >= count and all(
                engine.key(e) == engine.key(r)
                for e, r in zip(events, request.events)),
                'session %r of register events %r', events, request.events)
        for event in events[count:]:
            check(engine.key(event) in outputs,
                  'event of unknown origin %r', event)

    # all sessions are there
    if attempts and not run.backend.failed and run.ok:
        check(engine.status_payload(attempts[-1][0][0]) == 'STOPPED',
              'engine was closed without STOPPED event')
    for request in run.requests:
        if request.kind == 'ok' and request.events:
            check(id(request) in seen, 'successful registration of %r was '
                  'not given to backend', request.events)
    if run.ok and not faulty:
        check(attempts, 'STARTED event was not registered')

    # sequential requests are in order
    order = [i for i in requests if i is not None]
    for i, j in zip(order, order[1:]):
        check(not (j.kind == 'ok' and j.done_time < i.time),
              'registration overtaken by a later one')
    if run.conf['queue'] == 1024:
        index = {id(r): i for i, r in enumerate(run.requests)}
        check([index[id(i)] for i in order] ==
              sorted(index[id(i)] for i in order),
              'sessions are not in order of registrations')

    ctx.label('sessions', len(attempts))
    ctx.label('module events', sum(
        len(e) - len(r.events if r else e[:1])
        for (e, _, _, _), r in zip(attempts, requests)))
    if len(attempts) > 3:
        ctx.nontrivial = True


def run(case, ctx):
    def fn(run):
        run.interrupted = any(
            i['status'] in ('cancelled', 'raise', 'pending')
            for i in run.trace) or any(
            i.kind in ('error', 'cancelled') for i in run.requests)
        verify(run, ctx)

    engine.execute(case, ctx, fn)


SUBS = [
    Sub('normal', lambda: engine.case(False, 3), run, 2400, 60000,
        'histories of an engine with more than three sessions'),
    Sub('faults', lambda: engine.case(True, 3), run, 2400, 60000,
        'histories of an engine with more than three sessions and with '
        'failures or closing at any time')]
