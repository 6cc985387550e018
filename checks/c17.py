"""Event processing by modules"""
TECHNIQUE = ('stateful property testing of the real engine with generated '
             'modules and schedules (virtual time)')
NOTE = ('All calls of modules are recorded and compared with the content of '
        'the batches given to the backend. Order in which the engine calls '
        'different modules is not decided, except that calls never overlap '
        'and that events returned by a module come after all those existing '
        'at that time. The final STOPPED event is not a session processed '
        'by modules.')

from vlib import engine, gen, model
from vlib.core import Sub, check


def verify(run, ctx):
    attempts = run.attempts
    requests = engine.requests_of(run)
    outputs = {engine.key(e): (i, n) for i in run.trace
               for n, e in enumerate(i.get('output') or [])}
    n_modules = len(run.conf['modules'])

    check(not run.overlaps, 'overlapping calls of modules %r', run.overlaps)

    # calls of each session
    calls = {}
    for i in run.trace:
        session = (i['event'].id.session if i['kind'] == 'process'
                   else i['session'])
        calls.setdefault(session, []).append(i)
    order = [i['event'].id.session if i['kind'] == 'process'
             else i['session'] for i in run.trace]
    check(order == sorted(order), 'calls of sessions are interleaved: %r',
          order)

    batches = {}
    for (events, _, status, _), request in zip(attempts, requests):
        session = events[0].id.session
        kind = engine.status_payload(events[0]) if request is None else None
        if kind == 'STOPPED':
            continue
        batches[session] = events, request

    for session, (events, request) in batches.items():
        session_calls = calls.get(session, [])

        # origin and source of each event
        count = len(request.events) if request else 1
        source = ((engine.common.SourceType.ENGINE.value, 0)
                  if request is None
                  else (request.source.type.value, request.source.id))
        sources = [source] * count
        positions = []
        for event in events[count:]:
            check(engine.key(event) in outputs,
                  'event of unknown origin %r', event)
            call, n = outputs[engine.key(event)]
            check(call['event'].id.session == session,
                  'event %r is output of session %s', event,
                  call['event'].id.session)
            positions.append((call['end'], n))
            sources.append((engine.common.SourceType.MODULE.value,
                            call['m']))
        check(positions == sorted(positions),
              'events of modules are not in order of their creation: %r',
              [(e.id, p) for e, p in zip(events[count:], positions)])
        produced = sum(len(i.get('output') or []) for i in session_calls
                       if i['kind'] == 'process')
        check(produced == len(events) - count,
              'session %s has %s events of modules, %s were returned',
              session, len(events) - count, produced)

        # calls of each module
        for m in range(n_modules):
            module_calls = [i for i in session_calls if i['m'] == m]
            subs = run.conf['modules'][m]['subs']
            expected = [(gen.norm(e), s) for e, s in zip(events, sources)
                        if model.any_matches(e.type, subs)]
            kinds = [i['kind'] for i in module_calls]
            check(kinds == ['start', *['process'] * (len(kinds) - 2),
                            'stop'],
                  'calls of module %s in session %s: %r', m, session, kinds)
            actual = [(gen.norm(i['event']), (i['source'].type.value,
                                              i['source'].id))
                      for i in module_calls[1:-1]]
            check(len(actual) == len(expected),
                  'module %s processed %s events of session %s, expected %s '
                  '(%r)', m, len(actual), session, len(expected),
                  [i['event'].id for i in module_calls[1:-1]])
            for i, (a, e) in enumerate(zip(actual, expected)):
                check(a[0] == e[0], 'module %s: call %s of session %s got '
                      '%r', m, i, session, module_calls[i + 1]['event'])
                check(a[1] == e[1], 'module %s: call %s of session %s got '
                      'source %r, expected %r', m, i, session, a[1], e[1])
        # starts before anything else, stops after everything
        kinds = [i['kind'] for i in session_calls]
        check(kinds == sorted(kinds, key=['start', 'process',
                                          'stop'].index),
              'calls of session %s: %r', session, kinds)
        if n_modules > 1 and len(events) > count + 1:
            ctx.nontrivial = True
        ctx.label('events of modules', len(events) - count)
        if session_calls:
            # all calls are finished before the batch is registered
            ctx.label('sessions')

    # unfinished sessions
    for session, session_calls in calls.items():
        if session in batches:
            continue
        check(session == max(calls), 'session %s was not registered',
              session)
        check(run.module_failed or not run.conf['drain'] or
              any(i['status'] != 'ok' for i in session_calls) or
              any(i.get('close_after') is not None
                  for i in run.conf['modules']),
              'session %s was dropped', session)
        for m in range(n_modules):
            module_calls = [i for i in session_calls if i['m'] == m]
            kinds = [i['kind'] for i in module_calls]
            check(kinds == sorted(kinds, key=['start', 'process',
                                              'stop'].index) and
                  kinds.count('start') <= 1 and kinds.count('stop') <= 1,
                  'calls of module %s in session %s: %r', m, session, kinds)
            ids = [i['event'].id for i in module_calls
                   if i['kind'] == 'process']
            check(ids == sorted(set(ids)), 'module %s: %r', m, ids)
            subs = run.conf['modules'][m]['subs']
            for i in module_calls:
                check(i['kind'] != 'process' or
                      model.any_matches(i['event'].type, subs),
                      'module %s got %r', m, i.get('event'))


def run(case, ctx):
    engine.execute(case, ctx, lambda run: verify(run, ctx))


SUBS = [
    Sub('normal', lambda: engine.case(False, 1), run, 4000, 80000,
        'histories having a session of several modules with at least two '
        'events returned by modules'),
    Sub('faults', lambda: engine.case(True, 2), run, 2000, 40000,
        'the same, with failures or closing at any time')]
