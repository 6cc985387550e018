"""Server status and engine lifecycle"""
TECHNIQUE = ('stateful property-based testing with a simulated network: '
             'generated restarts, remote activity, failures, registrations '
             'and clients against status automaton and timeline model')
NOTE = ('Backend and eventer client runner are stand-ins; engine runner, '
        'engine, eventer server and clients are real. A request that '
        'overlaps a change of status may have either outcome.')

import asyncio
import itertools
import sys
import types

from hypothesis import strategies as st

from vlib import engine as venv, gen, net, sim
from vlib.core import Sub, check

from hat import aio
from hat import util
from hat.event import common
from hat.event import eventer
import hat.event.server.engine_runner
import hat.event.server.eventer_server
from hat.event.server.eventer_client import SyncedState

SERVER = venv.SERVER
NEXT = {'STANDBY': ['STARTING'],
        # interrupted or failed starting
        'STARTING': ['OPERATIONAL', 'STOPPING'],
        'OPERATIONAL': ['STOPPING'],
        'STOPPING': ['STANDBY']}
# sum of all delays of single transition
SLOW = 5

_delay = gen.timing([0, 0, -1, -3, 1, 5, 50])
_pause = gen.timing([0, 0, -1, -5, 1, 5, 50, 500, 10_000])

_op = gen.weighted(
    (5, st.tuples(st.just('register'), st.integers(0, 3),
                  st.lists(st.sampled_from([['a'], ['b', 'c']]),
                           min_size=1, max_size=3), st.booleans())),
    (3, st.tuples(st.just('restart'))),
    (3, st.tuples(st.just('remote'), st.booleans())),
    (1, st.tuples(st.just('flap'))),
    (2, st.tuples(st.just('synced'), st.sampled_from(
        ['CONNECTED', 'SYNCING', 'SYNCED']), st.integers(0, 9))),
    (2, st.tuples(st.just('connect'), st.integers(0, 2))),
    (1, st.tuples(st.just('disconnect'), st.integers(0, 2))),
    (1, st.tuples(st.just('fail'), st.sampled_from(
        ['module closes', 'module raises', 'backend', 'close']))))


def strategy():
    step = st.tuples(_op, _pause)
    return st.fixed_dictionaries({
        'net': net.conf,
        'last': st.just([0, 0]),
        'remote': gen.weighted((2, st.none()), (3, st.just(False)),
                               (1, st.just(True))),
        'backend_delay': st.lists(_delay, max_size=3),
        'flush_delay': st.lists(_delay, max_size=3),
        'create_delay': st.lists(_delay, max_size=3),
        'close_delay': st.lists(_delay, max_size=3),
        'modules': st.sampled_from([1, 1, 2]),
        'restart_on_create': st.sampled_from([0, 0, 0, 1, 2]),
        'create_fail': gen.opt(6, st.integers(0, 2)),
        'clients': st.integers(0, 3),
        'client_delay': st.lists(st.sampled_from([0, 0, 1, 50]), max_size=2),
        'settle': st.booleans(),
        'ops': gen.one_of(st.lists(step, max_size=6),
                          st.lists(step, min_size=5, max_size=16))})


class _Backend(venv.Backend):

    def __init__(self, case):
        super().__init__(case)
        self.persisted = 0
        self.attempt_cb = None
        self._flush_delay = sim.Cyc(case['flush_delay'])

    async def register(self, events):
        self.attempt_cb(events)
        return await super().register(events)

    async def flush(self):
        if not self.is_open:
            raise common.BackendClosedError()
        count = len(self.batches)
        await net.pause(self._flush_delay.next())
        self.persisted = max(self.persisted, count)


class _ClientRunner:

    def __init__(self, active):
        self.remote_active = active
        self._cbs = util.CallbackRegistry()

    def register_remote_active_cb(self, cb):
        return self._cbs.register(cb)

    def set(self, active):
        if active == self.remote_active:
            return
        self.remote_active = active
        self._cbs.notify(active)


class _Server:
    """Eventer server reporting changes of its status"""

    def __init__(self, server, status_cb):
        self._server = server
        self._status_cb = status_cb

    async def set_status(self, status, engine):
        self._status_cb(status, engine)
        await self._server.set_status(status, engine)

    def __getattr__(self, name):
        return getattr(self._server, name)


class _Module(common.Module):

    def __init__(self, engine, fail, close_delay):
        self._group = aio.Group()
        self._engine = engine
        self._fail = fail
        self._subscription = common.create_subscription([('*', )])
        self._group.spawn(aio.call_on_cancel, net.pause, close_delay)

    @property
    def async_group(self):
        return self._group

    @property
    def subscription(self):
        return self._subscription

    def process(self, source, event):
        if event.type == ('raise',):
            raise Exception('injected')


class _Client:

    def __init__(self, index, position):
        self.index = index
        self.client = None
        # positions in sequence of server's statuses
        self.first = position
        self.last = None
        self.seen = []
        self.lost = False


def run(case, ctx):
    async def main(loop):
        net.track(loop)
        backend = _Backend(case)
        server = await hat.event.server.eventer_server.create_eventer_server(
            net.ADDR, backend, SERVER)
        client_runner = (_ClientRunner(case['remote'])
                         if case['remote'] is not None else None)

        statuses = [['STANDBY', loop.time(), None]]
        modules = []
        creations = itertools.count()
        restarts = []
        create_delay = sim.Cyc(case['create_delay'])
        close_delay = sim.Cyc(case['close_delay'])
        client_delay = sim.Cyc(case['client_delay'])
        state = {'inactive_at': None, 'failed': False, 'closed': False,
                 'requested': None, 'remote_changed': 0}

        def on_status(status, engine):
            name = status.name
            prev = statuses[-1][0]
            if name == prev:
                return
            ctx.label(name)
            check(name in NEXT[prev], 'status %s after %s', name, prev)
            if name == 'STARTING':
                check(client_runner is None or
                      not client_runner.remote_active or
                      state['inactive_at'] == loop.time(),
                      'starting while remote is active')
                check(state['closed'] in (False, loop.time()),
                      'starting while closed')
            if name == 'OPERATIONAL':
                check(engine is not None and engine.server_id == SERVER,
                      'engine %r', engine)
                check(all(i[2] is not engine for i in statuses),
                      'same engine after restart')
            if name == 'STANDBY':
                check(backend.persisted == len(backend.batches),
                      'standby with %s registered and %s persisted batches',
                      len(backend.batches), backend.persisted)
                check(all(i[2] is None or i[2].is_closed for i in statuses),
                      'standby before engine is closed')
            statuses.append([name, loop.time(), engine])

        def on_attempt(events):
            check(statuses[-1][0] != 'STANDBY',
                  'engine registers events in standby')

        backend.attempt_cb = on_attempt

        async def create_module(conf, engine, source):
            n = next(creations)
            await net.pause(create_delay.next())
            if case['create_fail'] == n:
                state['failed'] = True
                raise Exception('injected')
            if n < case['restart_on_create']:
                engine.restart()
                # engine will be operational in next status
                restarts.append(len(statuses))
                ctx.label('restart while starting')
            module = _Module(engine, False, close_delay.next())
            modules.append(module)
            return module

        py_module = types.ModuleType('verif_module')
        py_module.info = common.ModuleInfo(create_module)
        sys.modules['verif_module'] = py_module

        runner = hat.event.server.engine_runner.EngineRunner(
            conf={'server_id': SERVER,
                  'modules': [{'module': 'verif_module'}
                              for _ in range(case.get('modules', 1))]},
            backend=backend, eventer_server=_Server(server, on_status),
            eventer_client_runner=client_runner,
            reset_monitor_ready_cb=lambda: None)

        clients = []
        current = {}
        tasks = []
        requests = []
        synced = []

        async def connect(index):
            if index in current and not current[index].lost:
                return
            client = _Client(index, len(statuses) - 1)
            current[index] = client
            clients.append(client)
            net.connecting.set(client)

            async def status_cb(_, status):
                client.seen.append(status.name)
                await net.pause(client_delay.next())
                check(client.client is None or
                      client.client.status == status, 'status property')

            client.client = await sim.within(100, eventer.connect(
                net.ADDR, f'c{index}', status_cb=status_cb), 'connect')
            client.last = len(statuses) - 1
            client.seen.insert(0, client.client.status.name
                               if not client.seen else None)

        async def register(client, event_types, with_response):
            request = {'from': len(statuses) - 1, 'client': client,
                       'response': with_response, 'kind': None}
            requests.append(request)
            kind, value = await sim.outcome(client.client.register(
                [common.RegisterEvent(tuple(i), None, None)
                 for i in event_types], with_response=with_response))
            request.update(kind=kind, value=value, to=len(statuses) - 1,
                           count=len(event_types))

        async def set_synced(name, count):
            item = {'from': len(statuses) - 1, 'name': name,
                    'n': len(synced), 'count': count}
            synced.append(item)
            # failure to register while engine is closing is not specified
            await sim.outcome(runner.set_synced(
                1000 + item['n'], SyncedState[name],
                count if name == 'SYNCED' else None))
            item['to'] = len(statuses) - 1

        try:
            for i in range(case['clients']):
                await connect(i)
            if case['settle']:
                await asyncio.sleep(SLOW)

            for op, ms in case['ops']:
                if op[0] == 'register':
                    live = [i for i in clients if not i.lost]
                    if live:
                        task = asyncio.ensure_future(register(
                            live[op[1] % len(live)], op[2], True))
                        tasks.append(task)
                        if op[3]:
                            await sim.within(100, asyncio.wait([task]),
                                             'register')

                elif op[0] == 'restart':
                    engine = statuses[-1][2]
                    if engine is not None and engine.is_open:
                        engine.restart()
                        restarts.append(len(statuses) - 1)
                        ctx.label('restart')

                elif op[0] == 'remote':
                    if client_runner is not None:
                        if client_runner.remote_active and not op[1]:
                            ctx.label('remote left')
                        if client_runner.remote_active != op[1]:
                            state['remote_changed'] = loop.time()
                        if not client_runner.remote_active:
                            state['inactive_at'] = loop.time()
                        client_runner.set(op[1])

                elif op[0] == 'flap':
                    # one peer becomes active as soon as another one leaves
                    if client_runner is not None and \
                            client_runner.remote_active:
                        ctx.label('other remote took over')
                        client_runner.set(False)
                        client_runner.set(True)

                elif op[0] == 'synced':
                    tasks.append(asyncio.ensure_future(
                        set_synced(op[1], op[2])))

                elif op[0] == 'connect':
                    await connect(op[1])

                elif op[0] == 'disconnect':
                    client = current.get(op[1])
                    if client and not client.lost:
                        client.lost = True
                        await sim.within(100, client.client.async_close(),
                                         'closing client')

                else:
                    if op[1] == 'close':
                        state['closed'] = loop.time()
                        tasks.append(asyncio.ensure_future(
                            runner.async_close()))
                    elif op[1] == 'backend':
                        state['failed'] = state['backend'] = True
                        backend.close()
                    elif op[1] == 'module closes':
                        if modules and modules[-1].is_open:
                            if statuses[-1][0] == 'OPERATIONAL':
                                state['failed'] = True
                            modules[-1].close()
                            state['module'] = True
                    else:
                        live = [i for i in clients if not i.lost]
                        if live:
                            state['module'] = True
                            tasks.append(asyncio.ensure_future(register(
                                live[0], [['raise']], True)))
                    ctx.label(op[1])

                await net.pause(ms)

            await asyncio.sleep(2 * SLOW)
            interrupted = (state['failed'] or state['closed'] is not False or
                           state.get('module'))
            active = client_runner and client_runner.remote_active
            if state['closed'] is not False or not runner.is_open:
                check(runner.is_closed, 'runner is not closed')
                if not state.get('backend'):
                    check(statuses[-1][0] == 'STANDBY',
                          'status of closed engine is %s', statuses[-1][0])
            elif not interrupted:
                check(runner.is_open, 'runner is closed')
                check(statuses[-1][0] == 'OPERATIONAL' or
                      active and statuses[-1][0] == 'STANDBY',
                      'status is %s (remote active %s)', statuses[-1][0],
                      active)
                if statuses[-1][0] == 'OPERATIONAL':
                    check(statuses[-1][2].is_open, 'engine is closed')
                    check(len(statuses) - 1 not in restarts,
                          'restart request is ignored')
            if statuses[-1][0] == 'OPERATIONAL' and runner.is_open:
                check(statuses[-1][2].is_open or state.get('module'),
                      'engine is closed')

            was_open = runner.is_open
            state['closed'] = loop.time()
            await sim.within(100, runner.async_close(), 'closing of runner')
            if not state.get('backend'):
                check(statuses[-1][0] == 'STANDBY',
                      'status of closed engine is %s', statuses[-1][0])
            if was_open and not interrupted:
                ctx.label('regular close')
            await asyncio.sleep(SLOW)
            check(all(i.is_closed for i in modules), 'module is not closed '
                  'after closing of engine')

            # without engine nothing is registered
            count = len(backend.attempts)
            for client in clients:
                if not client.lost:
                    result = await sim.within(
                        100, client.client.register(
                            [common.RegisterEvent(('late',), None, None)],
                            with_response=True), 'register')
                    check(result is None, 'registered without engine: %r',
                          result)
            check(len(backend.attempts) == count, 'registered without engine')

            if tasks:
                await sim.within(100, asyncio.wait(tasks), 'requests')
            for task in tasks:
                task.result()

            _verify_clients(clients, statuses)
            _verify_requests(requests, statuses, state, ctx)
            _verify_synced(synced, statuses, state, backend, ctx)
            ctx.nontrivial = len(statuses) > 5
            ctx.label('status changes', len(statuses))

            await sim.within(100, server.async_close(), 'closing of server')
            check(not loop.errors, 'unhandled errors %r', loop.errors)

        finally:
            sys.modules.pop('verif_module', None)

    sim.run(main, {'net': case['net']})


def _verify_clients(clients, statuses):
    names = [i[0] for i in statuses]
    for client in clients:
        seen = client.seen
        if seen[0] is None:
            seen = seen[1:]
            starts = range(client.first, client.last + 2)
        else:
            starts = range(client.first, client.last + 1)
        valid = [names[i:] for i in starts]
        if client.lost:
            check(any(i[:len(seen)] == seen for i in valid),
                  'client seen %r, server had %r', seen, names)
        else:
            check(seen in valid, 'client seen %r, server had %r (from %r)',
                  seen, names, client.first)


def _verify_requests(requests, statuses, state, ctx):
    for request in requests:
        during = {i[0] for i in
                  statuses[request['from']:request['to'] + 1]}
        if request['kind'] != 'ok':
            check(request['client'].lost, 'register failed: %r', request)
            continue
        value = request['value']
        if during == {'OPERATIONAL'}:
            if not (state['failed'] or state.get('module')):
                check(value is not None, 'register while operational failed')
        if 'OPERATIONAL' not in during:
            check(value is None, 'registered while %r', during)
        if value is not None:
            check(len(gen.events_of(value)) == request['count'],
                  'result %r', value)
            ctx.label('registered')


def _verify_synced(synced, statuses, state, backend, ctx):
    events = [i for batch in backend.batches for i in batch
              if len(i.type) == 4 and i.type[2] == 'synced']
    for item in synced:
        found = [i for i in events
                 if i.type == ('event', str(SERVER), 'synced',
                               str(1000 + item['n']))]
        check(len(found) <= 1, 'more synced events %r', found)
        during = {i[0] for i in statuses[item['from']:item['to'] + 1]}
        if during == {'OPERATIONAL'} and not (
                state['failed'] or state.get('module')):
            check(found, 'synced event is not registered')
        if not during & {'OPERATIONAL', 'STARTING'}:
            check(not found, 'synced event is registered in %r', during)
        for i in found:
            data = {'state': item['name']}
            if item['name'] == 'SYNCED':
                data['count'] = item['count']
            check(i.source_timestamp is None and
                  isinstance(i.payload, common.EventPayloadJson) and
                  gen.same(i.payload.data, data), 'synced event %r', i)
            ctx.label('synced event')


SUBS = [
    Sub('lifecycle', strategy, run, 2000, 50000,
        'cases with more than five status changes')]
