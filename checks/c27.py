"""Component connected to active event server"""
TECHNIQUE = ('stateful property-based testing with a simulated network: '
             'generated monitor states, blessings, server failures, refusals '
             'and runner behaviour against a model of the active server')
NOTE = ('Monitor and event servers are real observer and eventer servers '
        'driven by the case. Connections and runners are compared with the '
        'model whenever enough time passed since the last change (0.5 s '
        'reconnect delay, 45 s detection of silent loss); order of runners '
        'and connections is checked always. At most one component of the '
        'group is active in a monitor state.')

import asyncio

from hypothesis import strategies as st

from vlib import gen, net, sim
from vlib.core import Sub, check

from hat import aio
from hat.drivers import chatter
from hat.drivers import tcp
from hat.event import common
from hat.event import eventer
import hat.event.component
import hat.monitor.common
import hat.monitor.observer.server

MONITOR = tcp.Address('127.0.0.1', 4999)
PORTS = [5001, 5002, 5003]
GROUP = 'event'
NAME = 'client name'
SETTLE = 4
SILENT = 45

_index = st.integers(0, 2)
_target = st.sampled_from([3, 3, 3, 3, 0, 1, 2])  # 3 is active server
_statuses = ['STANDBY', 'STARTING', 'OPERATIONAL', 'STOPPING']

_data = st.fixed_dictionaries({
    'server_id': st.sampled_from([None, None, None, None, 0, 7]),
    'port': _index,
    'token': st.sampled_from(['a', 'a', 'a', 'a', 'a', 'a', 'a', 'b',
                              None])})
_damage = st.tuples(
    st.sampled_from([['server_id'], ['eventer_server'],
                     ['eventer_server', 'host'], ['eventer_server', 'port'],
                     ['server_token'], []]),
    gen.one_of(st.just('delete'), gen.json_data))

# components which are not active servers
_other = st.fixed_dictionaries({
    'group': st.sampled_from([GROUP, GROUP, 'other', None]),
    'req': st.sampled_from([None, 1]),
    'res': st.sampled_from([None, 2, 1]),
    'data': _data,
    'damage': gen.opt(2, _damage)})
_others = st.tuples(st.lists(_other, max_size=2), st.lists(_other, max_size=2))

_active = gen.weighted(
    (1, st.none()),
    (10, st.fixed_dictionaries({'data': _data, 'damage': st.none()})),
    (1, st.fixed_dictionaries({'data': _data, 'damage': _damage})))

_delay = gen.timing([0, 0, 0, -1, -2, -5, 1, 30])
_runner = st.fixed_dictionaries({
    'async': st.booleans(),
    'delay': gen.one_of(_delay, st.sampled_from([0, 1000])),
    'close': gen.one_of(_delay, st.sampled_from([0, 1000])),
    # lifetime of runner is bound to lifetime of client
    'bound': st.sampled_from([None, None, 'client', 'subgroup']),
    'error': st.sampled_from([False] * 30 + [True])})

_mostly = st.sampled_from([True, True, True, False])

_op = gen.weighted(
    (6, st.tuples(st.just('active'), _active)),
    (2, st.tuples(st.just('others'), _others)),
    (2, st.tuples(st.just('status'), _target, st.sampled_from(_statuses))),
    (4, st.tuples(st.just('notify'), _target, st.integers(1, 3))),
    (1, st.tuples(st.just('down'), _index)),
    (2, st.tuples(st.just('up'), _index)),
    (1, st.tuples(st.just('refuse'), _index,
                   st.sampled_from([True, False, False]))),
    (3, st.tuples(st.just('cut'), net.delay, net.delay)),
    (1, st.tuples(st.just('blackhole'))),
    (2, st.tuples(st.just('bless'), _mostly)),
    (2, st.tuples(st.just('ready'), _mostly)))
_end_op = gen.weighted(
    (4, st.tuples(st.just('end'))),
    (1, st.tuples(st.just('close'))),
    (1, st.tuples(st.just('monitor close'))),
    (1, st.tuples(st.just('monitor request'))),
    (1, st.tuples(st.just('monitor cut'))))

_pause = gen.timing([0, 0, -1, -2, -3, -5, -8, 5, 20, 1000, 5000, 5000,
                          5000, 50_000])


def strategy():
    step = st.tuples(_op, _pause)
    steps = gen.one_of(st.lists(step, min_size=1, max_size=6),
                       st.lists(step, min_size=5, max_size=16))
    return st.fixed_dictionaries({
        'net': net.conf,
        'token': st.sampled_from([None, None, None, 'a', 'a', 'a', '', 'ž']),
        'server_id': st.sampled_from(['default', 'default', 'default', None,
                                      2]),
        'runners': st.lists(_runner, min_size=1, max_size=4),
        'callbacks': st.sampled_from(['sync', 'sync', 'async', 'none']),
        'up': st.lists(st.sampled_from([True] * 6 + [False]),
                       min_size=3, max_size=3),
        'initial': st.fixed_dictionaries({
            'active': _active, 'others': _others,
            'bless': st.sampled_from([True] * 6 + [False]),
            'ready': st.sampled_from([True] * 6 + [False])}),
        'ops': st.tuples(steps, gen.opt(4, st.tuples(_end_op, _pause)),
                         st.lists(step, max_size=3)).map(
            lambda i: [*i[0], i[1], *i[2]] if i[1] else i[0])}).map(
                gen.usual_token)



def moments_strategy():
    """Two changes, exact number of iterations of event loop apart"""
    data = st.fixed_dictionaries({
        'data': st.fixed_dictionaries({
            'server_id': st.none(), 'port': _index, 'token': st.just('a')}),
        'damage': st.none()})
    change = gen.weighted(
        (4, st.tuples(st.just('active'), st.none() | data | data)),
        (2, st.tuples(st.just('bless'), st.booleans())),
        (2, st.tuples(st.just('ready'), st.booleans())),
        (1, st.tuples(st.just('cut'), st.just(0), st.just(0))),
        (1, st.tuples(st.just('down'), _index)),
        (1, st.tuples(st.just('up'), _index)))
    count = st.integers(-60, -1)
    delay = st.just(0) | count
    return st.fixed_dictionaries({
        'net': st.just({'latency': [], 'chunk': []}) | net.conf,
        'token': st.sampled_from([None, 'a']),
        'server_id': st.just('default'),
        'runners': st.lists(st.fixed_dictionaries({
            'async': st.booleans(), 'delay': delay, 'close': delay,
            'bound': st.sampled_from([None, None, 'client', 'subgroup']),
            'error': st.just(False)}), min_size=1, max_size=3),
        'callbacks': st.just('sync'),
        'up': st.sampled_from([[True, True, True], [True, True, True],
                               [True, False, True]]),
        'initial': st.fixed_dictionaries({
            'active': data, 'others': st.just([[], []]),
            'bless': st.just(True), 'ready': st.just(True)}),
        'ops': st.lists(st.tuples(change, count), min_size=2,
                        max_size=3).map(lambda i: [
                            [['ready', True], 5000],
                            *i[:-1], [i[-1][0], 5000],
                            [['bless', True], 0], [['ready', True], 5000]])})


def _to_data(spec, damage):
    port = PORTS[spec['port']]
    data = {'server_id': (spec['port'] + 1 if spec['server_id'] is None
                          else spec['server_id']),
            'eventer_server': {'host': '127.0.0.1', 'port': port},
            'server_token': spec['token']}
    if damage:
        path, value = damage
        if not path:
            return None if value == 'delete' else value
        obj = data
        for i in path[:-1]:
            obj = obj[i]
        if value == 'delete':
            del obj[path[-1]]
        else:
            obj[path[-1]] = value
    return data


def _eligible(data, token):
    if not isinstance(data, dict):
        return
    server = data.get('eventer_server')
    if not isinstance(server, dict):
        return
    if (type(data.get('server_id')) is not int or
            not isinstance(server.get('host'), str) or
            type(server.get('port')) is not int or
            not isinstance(data.get('server_token'), (str, type(None)))):
        return
    if token is not None and data.get('server_token') != token:
        return
    return (data['server_id'], server['host'], server['port'],
            data.get('server_token'))


def _ambiguous(data):
    """Data with undefined validity or not existing address"""
    if not isinstance(data, dict):
        return False
    if isinstance(data.get('server_id'), bool):
        return True
    server = data.get('eventer_server')
    if not isinstance(server, dict):
        return False
    if isinstance(server.get('port'), bool):
        return True
    item = _eligible(data, None)
    return item is not None and (item[1] != '127.0.0.1' or
                                 item[2] not in PORTS or
                                 not 0 <= item[0] < 2**63)


class _Server:

    def __init__(self, index):
        self.index = index
        self.port = PORTS[index]
        self.status = common.Status.STANDBY
        self.server = None
        self.refusing = False
        self.notified = []
        self.accepted = []  # number of notifications before each connection
        self.links = []

    async def up(self):
        self.server = await eventer.listen(
            tcp.Address('127.0.0.1', self.port), status=self.status,
            connected_cb=self._on_connected)

    def _on_connected(self, info):
        if self.refusing:
            raise Exception('refused')
        self.accepted.append((len(self.notified), info))

    def connections(self):
        return self.server.get_conn_infos() if self.server else []


class _Runner(aio.Resource):

    def __init__(self, server, data, client, spec):
        self.server = server
        self.data = data
        self.client = client
        self.start, self.info = server.accepted[-1]
        self.link = server.links[-1]
        self.ended = False
        self.bound = spec.get('bound') if client.is_open else None
        self._group = (aio.Group() if self.bound is None else
                       client.async_group if self.bound == 'client' else
                       client.async_group.create_subgroup())
        self._group.spawn(aio.call_on_cancel, net.pause, spec['close'])

    @property
    def async_group(self):
        return self._group


def run(case, ctx):
    async def main(loop):
        servers = [_Server(i) for i in range(3)]
        by_port = {i.port: i for i in servers}
        runners = []
        specs = sim.Cyc(case['runners'])
        received = {}
        clients = []
        statuses = {}
        states = []
        close_reqs = []
        tasks = []
        last = {'runner': None, 'changed': True, 'quiet': 0,
                'must close': False, 'may close': False, 'closed': False,
                'enabled': -SETTLE, 'ending': None}
        allowed = {}  # last time when data was active
        current = {'active': None, 'others': ([], []), 'bless': None,
                   'ready': False, 'tokens': 0, 'eligible': None}
        component = None

        def busy(seconds, changed=True):
            last['quiet'] = max(last['quiet'], loop.time() + seconds)
            last['changed'] = last['changed'] or changed
            if changed:
                # closing caused by a runner may be overtaken by a change
                last['ending'] = None

        async def ended(runner):
            await runner.wait_closed()
            await asyncio.sleep(0.01)
            if last['ending'] is runner:
                last['must close'] = True

        def enabled():
            return (component is not None and not last['closed'] and
                    current['bless'] is not None and current['ready'])

        def expected():
            """Expected server data"""
            return current['eligible'] if enabled() else None

        def allow():
            # state of component follows changes with some delay
            if current['eligible']:
                allowed[current['eligible']] = loop.time()
            if enabled():
                last['enabled'] = loop.time()

        def is_allowed(match):
            if not enabled() and last['enabled'] < loop.time() - SETTLE:
                return False
            if current['eligible'] and match(current['eligible']):
                return True
            return any(match(i) and time > loop.time() - SETTLE
                       for i, time in allowed.items())

        def refuse(port):
            if port == MONITOR.port:
                return False
            check(is_allowed(lambda i: i[2] == port),
                  'connecting to port %s, active is %r', port, expected())
            for i in runners:
                check(i.client.is_closed, 'connecting while previous '
                      'connection is not closed')
            return False

        def on_link(link):
            if link.port != MONITOR.port:
                by_port[link.port].links.append(link)
            else:
                last['monitor link'] = link

        loop.net.refuse = refuse
        loop.net.on_link = on_link

        # monitor

        def info(cid, group, data, req, res):
            return hat.monitor.common.ComponentInfo(
                cid=cid, mid=2, name=f'c{cid}', group=group, data=data,
                rank=1,
                blessing_req=hat.monitor.common.BlessingReq(req, None),
                blessing_res=hat.monitor.common.BlessingRes(res, True))

        def components():
            result = []
            before, after = current['others']
            for i, spec in enumerate([*before, None, *after]):
                if spec is None:
                    active = current['active']
                    if active:
                        data = _to_data(active['data'], active['damage'])
                        if not _ambiguous(data):
                            result.append(info(i, GROUP, data, 5, 5))
                    continue
                if (spec['group'] == GROUP and spec['req'] is not None and
                        spec['req'] == spec['res']):
                    continue
                result.append(info(i, spec['group'],
                                   _to_data(spec['data'], spec['damage']),
                                   spec['req'], spec['res']))
            return result

        def find_eligible():
            active = current['active']
            if active:
                data = _to_data(active['data'], active['damage'])
                if not _ambiguous(data):
                    return _eligible(data, case['token'])

        async def update(server):
            request = hat.monitor.common.BlessingReq(current['bless'],
                                                     None)
            local = [i._replace(blessing_req=request)
                     for i in server.state.local_components]
            await server.update(1, [*components(), *local])

        async def on_monitor_state(server, state):
            await update(server)

        monitor = await hat.monitor.observer.server.listen(
            MONITOR, state_cb=on_monitor_state, close_timeout=1)

        # component

        def on_runner(comp, data, client):
            check(component is None or comp is component, 'component')
            item = tuple(data.addr)
            item = (data.server_id, *item[:2], data.server_token)
            check(isinstance(data, hat.event.component.ServerData) and
                  is_allowed(lambda i: i == item),
                  'runner for %r, active is %r', data, expected())
            for i in runners:
                check(i.is_closed, 'previous runner is not closed')
                check(i.client.is_closed, 'previous client is not closed')
            spec = specs.next()
            server = by_port[data.addr.port]
            check(server.accepted, 'not connected')
            if spec['async']:
                return later(spec, server, item, client)
            if spec['error']:
                last['may close'] = True
                raise Exception('runner error')
            return create(spec, server, item, client)

        async def later(spec, server, item, client):
            await net.pause(spec['delay'])
            if spec['error']:
                last['may close'] = True
                raise Exception('runner error')
            return create(spec, server, item, client)

        def create(spec, server, item, client):
            runner = _Runner(server, item, client, spec)
            runners.append(runner)
            request = runner.info
            server_id = (item[0] if case['server_id'] == 'default'
                         else case['server_id'])
            check(request.client_name == NAME and
                  request.client_token == case['token'] and
                  request.server_id == server_id,
                  'connection %r', request)
            ctx.label('runners')
            return runner

        def wrap(fn):
            if case['callbacks'] == 'none':
                return None
            if case['callbacks'] == 'sync':
                return fn

            async def wrapper(*args):
                await net.pause(1)
                return fn(*args)

            return wrapper

        def on_state(comp, state):
            check(component is None or comp is component, 'component')
            check(state == comp.state, 'state callback with %r, state is %r',
                  state, comp.state)
            states.append(state)

        def on_close_req(comp):
            check(comp is component, 'component')
            check(last.get('requested'), 'close request')
            close_reqs.append(component.is_open)

        def on_status(comp, client, status):
            check(comp is component, 'component')
            check(client not in statuses or statuses[client] != status,
                  'status did not change')
            statuses[client] = status
            ctx.label('statuses')

        def on_events(comp, client, events):
            check(comp is component, 'component')
            received.setdefault(client, []).extend(events)
            clients.append(client)
            ctx.label('events', len(events))

        kwargs = {'client_token': case['token'],
                  'subscriptions': [('*', )]}
        if case['server_id'] != 'default':
            kwargs['server_id'] = case['server_id']

        for server in servers:
            if case['up'][server.index]:
                await server.up()

        initial = case['initial']
        current.update(active=initial['active'], others=initial['others'])
        current['eligible'] = find_eligible()
        await update(monitor)
        component = await sim.within(100, hat.event.component.connect(
            MONITOR, 'name', 'group', GROUP, NAME, on_runner,
            state_cb=wrap(on_state),
            close_req_cb=wrap(on_close_req),
            status_cb=wrap(on_status),
            events_cb=wrap(on_events),
            eventer_kwargs=kwargs), 'connecting')
        check(component.ready is False, 'ready')

        async def bless(value):
            allow()
            if value:
                current['tokens'] += 1
            current['bless'] = current['tokens'] if value else None
            allow()
            await update(monitor)
            busy(SETTLE)

        async def set_ready(value):
            allow()
            current['ready'] = value
            try:
                await sim.within(10, component.set_ready(value), 'ready')
                check(component.ready is value, 'ready')
            except ConnectionError:
                check(not component.is_open, 'connection error')
            busy(SETTLE)

        if initial['bless']:
            await bless(True)
        if initial['ready']:
            await set_ready(True)
        busy(SETTLE)

        def connections():
            return [(i.index, info) for i in servers
                    for info in i.connections()]

        def alive():
            return [i for i in runners if not i.is_closed]

        def verify():
            if loop.time() <= last['quiet']:
                return
            if component.is_open:
                check(not last['must close'], 'component is not closed')
                check(states[-1:] == [component.state] or
                      case['callbacks'] == 'none', 'last state')
                check(component.state.components ==
                      monitor.state.global_components, 'state')
            else:
                check(last['may close'],
                      'component is closed')
                last['closed'] = True
                ctx.label('closed component')
            ctx.label('verified')
            now = connections()
            item = expected()
            server = by_port[item[2]] if item else None
            if (not item or server.server is None):
                check(not now, 'connections %r, active is %r', now, item)
                check(not alive(), 'runner without connection')
                last['runner'] = None
            else:
                if server.refusing and not now:
                    check(not alive(), 'runner without connection')
                    last['runner'] = None
                else:
                    check(len(now) == 1 and now[0][0] == server.index,
                          'connections %r, active is %r', now, item)
                    check(len(alive()) == 1, 'no runner or more runners: %r',
                          len(alive()))
                    runner = alive()[0]
                    check(runner is runners[-1] and runner.data == item and
                          runner.is_open and runner.client.is_open and
                          runner.info is now[0][1], 'runner of other server')
                    check(last['changed'] or runner is last['runner'],
                          'new runner without a reason')
                    last['runner'] = runner
                    check(runner.client.status == server.status, 'status')
                    check(statuses.get(runner.client, server.status) ==
                          server.status, 'last status')
                    ctx.label('verified with connection')
                    ctx.nontrivial = True
            last['changed'] = False
            for runner in runners:
                verify_events(runner)

        def verify_events(runner):
            if case['callbacks'] == 'none':
                return
            events = [i for i in runner.server.notified[runner.start:]
                      if runner.info.server_id in (None, i.id.server)]
            result = received.get(runner.client, [])
            if runner is last['runner']:
                check(result == events, 'received %r, notified %r', result,
                      events)
            else:
                check(result == events[:len(result)],
                      'received %r, notified %r', result, events)

        def target(index):
            if index < 3:
                return servers[index]
            item = expected()
            return by_port[item[2]] if item else servers[0]

        counter = 0
        for op, ms in case['ops']:
            runner = runners[-1] if runners else None
            if op[0] == 'active':
                allow()
                previous = current['eligible']
                current['active'] = op[1]
                current['eligible'] = find_eligible()
                await update(monitor)
                busy(SETTLE, previous != current['eligible'])

            elif op[0] == 'others':
                current['others'] = op[1]
                await update(monitor)
                busy(SETTLE, False)

            elif op[0] == 'bless':
                await bless(op[1])

            elif op[0] == 'ready':
                await set_ready(op[1])

            elif op[0] == 'status':
                server = target(op[1])
                server.status = common.Status[op[2]]
                if server.server:
                    await sim.within(100,
                                     server.server.set_status(server.status),
                                     'status')
                busy(SETTLE, False)

            elif op[0] == 'notify':
                server = target(op[1])
                events = []
                for _ in range(op[2]):
                    counter += 1
                    events.append(common.Event(
                        id=common.EventId(1 + counter % 3, 1, counter),
                        type=('a', str(server.index)),
                        timestamp=common.now(), source_timestamp=None,
                        payload=None))
                if server.server:
                    server.notified.extend(events)
                    await sim.within(100, server.server.notify_events(
                        events, False), 'notify')
                busy(SETTLE, False)

            elif op[0] == 'down':
                server = servers[op[1]]
                if server.server:
                    await sim.within(100, server.server.async_close(),
                                     'closing of server')
                    server.server = None
                    busy(SETTLE)

            elif op[0] == 'up':
                server = servers[op[1]]
                if not server.server:
                    await server.up()
                    busy(SETTLE)

            elif op[0] == 'refuse':
                servers[op[1]].refusing = op[2]
                busy(SETTLE)

            elif op[0] in ('cut', 'blackhole'):
                links = [i for server in servers for i in server.links
                         if i.active]
                if links:
                    if op[0] == 'cut':
                        links[-1].cut(op[1], op[2])
                        busy(SETTLE)
                    else:
                        links[-1].blackhole()
                        busy(SETTLE + SILENT)
                    ctx.label(f'connection {op[0]}')

            elif op[0] == 'end':
                if (runner and runner.is_open and
                        runner.bound != 'client'):
                    must = (loop.time() > last['quiet'] and
                            component.is_open and
                            expected() == runner.data)
                    last['may close'] = True
                    runner.close()
                    busy(SETTLE)
                    if must:
                        last['ending'] = runner
                        tasks.append(asyncio.ensure_future(ended(runner)))
                    ctx.label('ended runner')

            else:
                last['may close before'] = last['may close']
                last['may close'] = True
                last['must close'] = True
                if op[0] == 'close':
                    allow()
                    task = sim.within(100, component.async_close(),
                                      'closing')
                    task = asyncio.ensure_future(task)
                elif op[0] == 'monitor close':
                    last['requested'] = True
                    task = sim.within(100, monitor.async_close(), 'closing')
                    task = asyncio.ensure_future(task)
                elif op[0] == 'monitor request':
                    # closing requested by monitor
                    requested = component.is_open
                    last['requested'] = True
                    for conn in list(monitor._cid_conns.values()):
                        await conn.send(chatter.Data('HatObserver.MsgClose',
                                                     b''))
                    if requested:
                        await asyncio.sleep(1)
                        check(case['callbacks'] == 'none' or
                              close_reqs == [True] or
                              last['may close before'],
                              'close request: %r', close_reqs)
                        ctx.label('close request')
                else:
                    last['monitor link'].cut()
                busy(SETTLE)
                await asyncio.sleep(SETTLE / 2)

            allow()
            await net.pause(ms)
            verify()

        await asyncio.sleep(max(0, last['quiet'] - loop.time()) + 0.5)
        for task in tasks:
            check(task.done(), 'runner is not closed')
        verify()
        await sim.within(100, component.async_close(), 'closing')
        check(not alive(), 'runner of closed component')
        for runner in runners:
            check(runner.client.is_closed, 'client of closed component')
        count = len(runners)
        await asyncio.sleep(SILENT + SETTLE)
        check(not connections(), 'connection of closed component')
        check(len(runners) == count, 'runner of closed component')
        for server in servers:
            if server.server:
                await sim.within(100, server.server.async_close(), 'closing')
        await sim.within(100, monitor.async_close(), 'closing')
        check(not loop.errors, 'unhandled errors %r', loop.errors)

    sim.run(main, {'net': case['net']})


SUBS = [
    Sub('moments', moments_strategy, run, 6000, 200000,
        'cases with at least one verified state with connection'),
    Sub('component', strategy, run, 5000, 100000,
        'cases with at least one verified state with connection')]
