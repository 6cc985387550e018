"""Answers to engine registrations"""
TECHNIQUE = ('stateful property testing of the real engine with generated '
             'modules, schedules and failures (virtual time)')
NOTE = ('Failures: exceptions in modules and in backend, backend without '
        'result, closing of a module, of the backend and of the engine at '
        'any time, cancelled callers, small register queue. Waiting is '
        'bounded by virtual time.')

from vlib import engine, gen
from vlib.core import Sub, check


def verify(run, ctx):
    batches = {}
    for (events, _, status, _), request in zip(run.attempts,
                                               engine.requests_of(run)):
        if request is not None:
            batches[id(request)] = events, status

    for request in run.requests:
        ctx.label(f'request {request.kind}')
        events, status = batches.get(id(request), (None, None))
        if request.kind == 'ok':
            if not request.events:
                check(request.result is not None and
                      list(request.result) == [],
                      'result of empty registration is %r', request.result)
                continue
            check(events is not None, 'registration of %r returned %r but '
                  'was not given to backend', request.events,
                  request.result)
            if status == 'none':
                check(request.result is None, 'backend returned nothing, '
                      'registration returned %r', request.result)
                ctx.label('failed registration')
                continue
            check(status == 'ok', 'registration returned %r, backend %s',
                  request.result, status)
            check(request.result is not None, 'registration returned None')
            result = gen.events_of(request.result)
            check(gen.same(result, events[:len(request.events)]),
                  'registration of %r returned %r', request.events, result)
            if len(events) > len(request.events):
                ctx.label('result without module events')
        elif request.kind == 'error':
            check(run.ended, 'registration failed with %r', request.result)
        elif request.kind == 'pending':
            check(False, 'hang: registration of %r', request.events)

    for index, request in enumerate(run.requests):
        if run.ok and index >= run.after_closing and request.events:
            check(request.kind != 'ok', 'registration on closing engine '
                  'returned %r', request.result)

    kinds = {i.kind for i in run.requests[:-1]}
    if run.conf['drain'] and not run.failing and run.ok:
        for i in run.requests[:run.before_closing]:
            check(i.kind in ('ok', 'cancelled'),
                  'registration %r: %s', i.events, i.result)
    ctx.nontrivial = ctx.nontrivial or (
        len(run.requests) > 2 and (run.failing or len(kinds) > 1))


def run(case, ctx):
    def fn(run):
        run.failing = (run.module_failed or run.backend.failed or
                       any(i.get('close_after') is not None
                           for i in run.conf['modules']))
        # only the last request is made after closing in fault free history
        run.ended = True
        verify(run, ctx)

    engine.execute(case, ctx, fn)


SUBS = [
    Sub('faults', lambda: engine.case(True, 2), run, 5000, 100000,
        'histories with more than two registrations and with a failure or '
        'closing of engine while registrations are waiting')]
