"""Generators and driver of engine histories

Engine runs with observable backend and generated modules. Everything that
happens is recorded to a trace and checks decide it without any assumption
about order in which engine calls different modules.

"""
import asyncio
import itertools
import sys
import types

from hypothesis import strategies as st

from vlib import gen, model, sim
from vlib.core import Violation, check

from hat import aio
from hat.event import common
import hat.event.server.engine

SERVER = 3

_types = st.sampled_from([['a'], ['b'], ['a', 'b'], ['a', 'c'], ['m'],
                          ['m', 'a'], ['b', 'b', 'b'], ['ab'], []])
_query_type = gen.one_of(_types, st.sampled_from(
    [['*'], ['*'], ['a', '*'], ['m', '*'], ['?'], ['?', 'b'], ['event', '*'],
     ['event', '?', 'engine']]))
_subs = gen.one_of(st.just([['*']]), st.lists(_query_type, max_size=3))

_delay = gen.timing([0, 0, 0, -1, -3, 1, 5, 20])

_reaction = gen.weighted(
    (15, st.tuples(_query_type, st.lists(_types, min_size=1, max_size=3),
                   st.integers(1, 3)).map(list)),
    # many rounds of processing
    (1, st.tuples(st.just(['*']), st.lists(_types, min_size=1, max_size=1),
                  st.sampled_from([20, 150])).map(list)))


def module(faults):
    conf = {
        'subs': _subs,
        'kind': st.sampled_from(['sync', 'async', 'async']),
        # of each call (there can be thousands)
        'delay': st.lists(st.sampled_from([0, 0, 0, -1, -3, 1, 5, 20]),
                          max_size=3),
        'react': gen.one_of(st.just([]), st.lists(_reaction, max_size=3)),
        'ret': st.sampled_from(['list', 'tuple', 'gen']),
        'empty': st.sampled_from(['none', 'list', 'gen']),
        'bg': gen.one_of(st.just([]), st.just([]), st.lists(
            st.tuples(_delay, st.lists(_types, max_size=3)), max_size=3)),
        'create_delay': _delay}
    if faults:
        conf['fail'] = gen.one_of(
            st.none(), st.none(), st.none(),
            st.tuples(st.sampled_from(['create', 'start', 'process',
                                       'process', 'stop']),
                      st.integers(0, 5)))
        conf['close_after'] = gen.one_of(
            st.none(), st.none(), st.none(), st.none(),
            st.sampled_from(['create', 0, -3, 1, 10, 50]))
    return st.fixed_dictionaries(conf)


_reg = st.fixed_dictionaries({
    'type': _types, 'st': st.none() | gen.timestamp,
    'payload': gen.one_of(st.none(), gen.payload)})


def run_conf(faults):
    op = gen.weighted(
        (20, st.tuples(st.just('reg'), st.integers(0, 5),
                       st.lists(_reg, min_size=1, max_size=4))),
        (10, st.tuples(st.just('reg'), st.integers(0, 5),
                       st.lists(_reg, max_size=2))),
        (1, st.tuples(st.just('reg'), st.integers(0, 5),
                      st.builds(lambda reg, n: [reg] * n, _reg,
                                st.sampled_from([70, 300, 1100, 5000])))),
        (10, st.tuples(st.just('call'), st.sampled_from(
            ['query', 'query', 'restart', 'reset', 'names']))),
        *([(10, st.tuples(st.just('cancel'), st.integers(0, 3)))] if faults
          else []))
    step = st.tuples(op, st.booleans(), _delay)
    return st.fixed_dictionaries({
        'modules': gen.one_of(
            st.lists(module(faults), max_size=3),
            st.lists(module(faults), min_size=2, max_size=3)),
        'ops': gen.one_of(st.lists(step, max_size=6),
                         st.lists(step, min_size=4, max_size=12)),
        'late': st.lists(step, max_size=2) if faults else st.just([]),
        # creation of engine is cancelled after number of ms
        'cancel': (gen.opt(8, st.sampled_from(
            [0, -1, -3, -6, -10, 1, 5, 10, 30])) if faults else st.none()),
        'queue': (st.sampled_from([1024, 1024, 1, 2]) if faults
                  else st.just(1024)),
        'drain': st.booleans() if faults else st.just(True)})


def case(faults, max_runs=2):
    conf = {
        'server': st.sampled_from([3, 3, 0, 2**40]),
        'last': st.sampled_from([[0, 0], [0, 0], [1, 1], [7, 3],
                                 [2**40, 2**40]]),
        'runs': st.lists(run_conf(faults), min_size=1, max_size=max_runs),
        'backend_delay': st.lists(_delay, max_size=3)}
    if faults:
        conf['backend_fail'] = gen.one_of(
            st.none(), st.none(), st.none(),
            st.tuples(st.integers(0, 5), st.sampled_from(
                ['raise', 'raise after', 'none', 'none', 'close'])))
    return st.fixed_dictionaries(conf)


async def pause(ms):
    loop = asyncio.get_running_loop()
    if ms == 0:
        return
    future = loop.create_future()
    loop.delay(ms, lambda: future.done() or future.set_result(None))
    await future


def now():
    loop = asyncio.get_running_loop()
    return round((loop.epoch + loop.time()) * 1_000_000)


def to_us(t):
    return t.s * 1_000_000 + t.us


class Backend(common.Backend):

    def __init__(self, case):
        self._group = aio.Group()
        self.batches = []  # successfully registered
        self.attempts = []  # [events, time, outcome, run]
        self.run = 0
        self.last = common.EventId(SERVER, *case['last'])
        self._delay = sim.Cyc(case['backend_delay'])
        self._fail = case.get('backend_fail')
        self.queries = []
        self.failed = False

    @property
    def async_group(self):
        return self._group

    async def get_last_event_id(self, server_id):
        await pause(self._delay.next())
        if server_id != SERVER:
            return common.EventId(server_id, 0, 0)
        return self.last

    async def register(self, events):
        if not self.is_open:
            raise common.BackendClosedError()
        events = list(events)
        i = len(self.attempts)
        attempt = [events, now(), 'pending', self.run]
        self.attempts.append(attempt)
        fail = (self._fail[1] if self._fail and self._fail[0] == i else None)
        if fail == 'raise':
            self.failed = True
            attempt[2] = 'raise'
            raise Exception('injected')
        if fail == 'close':
            self.failed = True
            self.close()
            attempt[2] = 'raise'
            raise common.BackendClosedError()
        if fail == 'none':
            attempt[2] = 'none'
            await pause(self._delay.next())
            return None
        self.batches.append(events)
        if events:
            self.last = events[-1].id
        if fail == 'raise after':
            self.failed = True
            attempt[2] = 'raise'
            await pause(self._delay.next())
            raise Exception('injected')
        await pause(self._delay.next())
        attempt[2] = 'ok'
        return events

    async def query(self, params):
        result = common.QueryResult([], False)
        self.queries.append((params, result))
        await pause(self._delay.next())
        return result

    async def flush(self):
        pass


class EventerServer:

    def get_client_names(self):
        yield common.Source(common.SourceType.EVENTER, 5), 'client'


class Module(common.Module):

    def __init__(self, run, index, conf, engine, source):
        self.run = run
        self.index = index
        self.conf = conf
        self.engine = engine
        self.source = source
        self._group = aio.Group()
        self._subscription = common.create_subscription(
            tuple(i) for i in conf['subs'])
        self._delay = sim.Cyc(conf['delay'])
        self._left = [i[2] for i in conf['react']]
        self._calls = {'start': 0, 'process': 0, 'stop': 0}
        for delay, reg_types in conf['bg']:
            self._group.spawn(self._background, delay, reg_types)
        if conf.get('close_after') == 'create':
            self.close()
        elif conf.get('close_after') is not None:
            asyncio.get_running_loop().delay(conf['close_after'], self.close)

    async def _background(self, delay, reg_types):
        await pause(delay)
        await self.run.register(self.source, [
            {'type': i, 'st': None, 'payload': None} for i in reg_types],
            self.engine)

    @property
    def async_group(self):
        return self._group

    @property
    def subscription(self):
        return self._subscription

    def _call(self, kind, *args):
        fail = self.conf.get('fail')
        n = self._calls[kind]
        self._calls[kind] += 1
        raising = bool(fail and fail[0] == kind and fail[1] == n)
        if self.conf['kind'] == 'sync':
            entry = self.run.begin(self.index, kind, *args)
            return self._finish(entry, raising)
        return self._async_call(kind, args, raising)

    async def _async_call(self, kind, args, raising):
        entry = self.run.begin(self.index, kind, *args)
        try:
            await pause(self._delay.next())
        except asyncio.CancelledError:
            self.run.end(entry, 'cancelled')
            raise
        return self._finish(entry, raising)

    def _finish(self, entry, raising):
        if raising:
            self.run.module_failed = True
            self.run.end(entry, 'raise')
            raise Exception('injected')
        if entry['kind'] != 'process':
            self.run.end(entry, 'ok')
            return None
        result = []
        for i, (query_type, reg_types, _) in enumerate(self.conf['react']):
            if not self._left[i] or not model.type_matches(
                    entry['event'].type, query_type):
                continue
            self._left[i] -= 1
            result.extend(common.RegisterEvent(
                type=tuple(t), source_timestamp=None,
                payload=common.EventPayloadJson(
                    {'output': next(self.run.counter)})) for t in reg_types)
        entry['output'] = list(result)
        self.run.end(entry, 'ok')
        if not result:
            return {'none': None, 'list': [],
                    'gen': iter(())}[self.conf['empty']]
        if self.conf['ret'] == 'tuple':
            return tuple(result)
        if self.conf['ret'] == 'gen':
            return (i for i in result)
        return result

    def on_session_start(self, session_id):
        return self._call('start', session_id)

    def on_session_stop(self, session_id):
        return self._call('stop', session_id)

    def process(self, source, event):
        return self._call('process', source, event)


class Request:

    def __init__(self, source, events, time):
        self.source = source
        self.events = events
        self.time = time
        self.done_time = None
        self.kind = 'pending'  # ok, error, cancelled
        self.result = None


class Run:
    """Single engine life"""

    def __init__(self, conf, backend, index):
        self.conf = conf
        self.backend = backend
        self.index = index
        self.trace = []
        self.active = None
        self.overlaps = []
        self.modules = []
        self.requests = []
        self.counter = itertools.count(1 + index * 10_000)
        self.module_failed = False
        self.first_attempt = len(backend.attempts)
        self.restarts = self.resets = 0
        self.engine = None
        self.closing_time = None
        self.after_closing = None
        self.late = []

    def begin(self, index, kind, *args):
        entry = {'m': index, 'kind': kind, 'status': 'pending',
                 'attempt': len(self.backend.attempts)}
        if kind == 'process':
            entry['source'], entry['event'] = args
        else:
            entry['session'], = args
        if self.active is not None:
            self.overlaps.append((self.active, entry))
        self.active = entry
        self.trace.append(entry)
        return entry

    def end(self, entry, status):
        entry['status'] = status
        entry['end'] = next(self.counter)
        if self.active is entry:
            self.active = None

    async def register(self, source, events, engine):
        events = [self._reg_event(i) for i in events]
        request = Request(source, list(events), now())
        self.requests.append(request)
        try:
            request.kind, request.result = await sim.outcome(
                engine.register(source, gen.collection(
                    events, len(self.requests))))
        except asyncio.CancelledError:
            request.kind = 'cancelled'
            raise
        finally:
            request.done_time = now()
        return request

    def _reg_event(self, spec):
        """Register event different from all other"""
        event = gen.to_register_event(spec)
        n = next(self.counter)
        if event.source_timestamp is not None:
            t = event.source_timestamp
            return event._replace(source_timestamp=common.Timestamp(
                n if t.s >= 0 else -n, t.us))
        if isinstance(event.payload, common.EventPayloadBinary):
            return event._replace(payload=event.payload._replace(
                type=f'{n}'))
        return event._replace(payload=common.EventPayloadJson(
            {'n': n, 'p': event.payload.data if event.payload else None}))

    @property
    def attempts(self):
        return [i for i in self.backend.attempts if i[3] == self.index]


async def play(run, ctx):
    conf = run.conf
    modules = run.modules
    names = []
    confs = []
    run.created = []

    for index, module_conf in enumerate(conf['modules']):
        name = f'verif_module_{index}'

        async def create(conf, engine, source, index=index,
                         module_conf=module_conf):
            check(conf['module'] == f'verif_module_{index}' and
                  conf['extra'] == index, 'invalid module configuration')
            await pause(module_conf['create_delay'])
            fail = module_conf.get('fail')
            if fail and fail[0] == 'create':
                run.module_failed = True
                raise Exception('injected')
            module = Module(run, index, module_conf, engine, source)
            modules.append(module)
            return module

        py_module = types.ModuleType(name)
        py_module.info = common.ModuleInfo(create)
        sys.modules[name] = py_module
        names.append(name)
        confs.append({'module': name, 'extra': index})

    def restart():
        run.restarts += 1

    def reset():
        run.resets += 1

    tasks = []
    try:
        run.created_time = now()

        async def create_engine():
            try:
                return await hat.event.server.engine.create_engine(
                    backend=run.backend, eventer_server=EventerServer(),
                    module_confs=confs, server_id=SERVER, restart_cb=restart,
                    reset_monitor_ready_cb=reset,
                    register_queue_size=conf['queue'])
            except asyncio.CancelledError as e:
                # closing of a module cancels creation of the next one
                raise Exception('engine creation cancelled') from e

        creating = asyncio.ensure_future(create_engine())
        cancelled = False
        if conf.get('cancel') is not None:
            await asyncio.sleep(0)
            await pause(conf['cancel'])
            cancelled = creating.cancel()
        kind, engine = await sim.outcome(sim.within(
            1000, creating, 'create engine'))
        if kind == 'error':
            faults = cancelled or any(i.get('fail') or i.get('close_after') is not None
                         for i in conf['modules'])
            if not faults:
                raise engine
            ctx.label('engine not created')
            await sim.within(1000, _settled(run), 'requests after failed '
                             'creation')
            for i in modules:
                check(i.is_closed, 'module is not closed after failed '
                      'creation of engine')
            return False

        run.engine = engine
        check(engine.server_id == SERVER, 'server_id %r', engine.server_id)

        async def steps(ops):
            for op, wait, delay in ops:
                if op[0] == 'reg':
                    source = (common.Source(common.SourceType(op[1] % 4 + 1),
                                            op[1]))
                    task = asyncio.ensure_future(
                        run.register(source, op[2], engine))
                    tasks.append(task)
                    if wait:
                        await sim.within(1000, asyncio.wait([task]),
                                         'register')
                    else:
                        await asyncio.sleep(0)
                elif op[0] == 'cancel':
                    pending = [i for i in tasks if not i.done()]
                    if pending:
                        pending[op[1] % len(pending)].cancel()
                        ctx.label('cancelled request')
                elif op[1] == 'query':
                    params = common.QueryLatestParams([('q', str(op[1]))])
                    result = await sim.within(1000, engine.query(params),
                                              'engine query')
                    check(run.backend.queries and
                          run.backend.queries[-1][0] is params or
                          run.backend.queries[-1][0] == params,
                          'query was not passed to the backend')
                    check(result == run.backend.queries[-1][1],
                          'result of query was changed')
                elif op[1] == 'restart':
                    before = run.restarts
                    engine.restart()
                    check(run.restarts == before + 1, 'restart callback')
                elif op[1] == 'reset':
                    before = run.resets
                    engine.reset_monitor_ready()
                    check(run.resets == before + 1, 'reset callback')
                elif op[1] == 'names':
                    check(list(engine.get_client_names()) ==
                          list(EventerServer().get_client_names()),
                          'client names')
                await pause(delay)

        await steps(conf['ops'])
        if conf['drain']:
            await sim.within(10000, _drained(run), 'pending requests')
        engine.close()
        run.closing_time = now()
        run.before_closing = len(run.requests)
        rejecting = asyncio.ensure_future(_rejecting(run))
        await steps(conf['late'])
        await rejecting
        await sim.within(1000, engine.async_close(), 'closing of engine')
        await sim.within(1000, _settled(run), 'requests after closing of '
                         'engine')
        request = await run.register(
            common.Source(common.SourceType.EVENTER, 1),
            [{'type': ['late'], 'st': None, 'payload': None}], engine)
        check(request.kind == 'error', 'register on closed engine: %s %r',
              request.kind, request.result)
        for i in modules:
            check(i.is_closed, 'module is not closed with engine')
        for i in tasks:
            if i.done() and not i.cancelled():
                i.result()
        return True

    finally:
        for name in names:
            del sys.modules[name]


async def _rejecting(run):
    """Closing starts in the next iteration of the loop"""
    for _ in range(3):
        await asyncio.sleep(0)
    run.after_closing = len(run.requests)


async def _settled(run):
    """Every request is answered"""
    while any(i.kind == 'pending' for i in run.requests):
        await asyncio.sleep(0.001)


async def _drained(run):
    """Nothing to do any more, or engine is closing"""
    last = None
    while True:
        if run.engine.is_closing:
            return
        await asyncio.sleep(0.5)
        state = (len(run.requests), len(run.trace),
                 len(run.backend.attempts))
        if state == last and not any(i.kind == 'pending'
                                     for i in run.requests):
            return
        last = state


def execute(case, ctx, verify):
    """Run all engine lives, `verify(run)` is called after each"""
    global SERVER
    SERVER = case.get('server', 3)

    async def main(loop):
        backend = Backend(case)
        for index, conf in enumerate(case['runs']):
            if not backend.is_open:
                break
            run = Run(conf, backend, index)
            backend.run = index
            run.last = backend.last
            run.ok = await play(run, ctx)
            run.time = now()
            verify(run)
            # let time pass between lives
            await asyncio.sleep(0.0015)

    sim.run(main)


# verification

def status_payload(event):
    if (event.type == ('event', str(SERVER), 'engine') and
            isinstance(event.payload, common.EventPayloadJson) and
            event.payload.data in ('STARTED', 'STOPPED')):
        return event.payload.data


def key(event):
    """Content of register event or event"""
    return gen.norm((event.type, event.source_timestamp, event.payload))


def requests_of(run):
    """Request of each attempt, None if unknown"""
    first = {key(i.events[0]): i for i in run.requests if i.events}
    return [first.get(key(i[0][0])) if i[0] else None for i in run.attempts]


__all__ = ['Violation']
