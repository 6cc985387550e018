"""Connections to redundant servers and their activity"""
TECHNIQUE = ('stateful property-based testing with a simulated network: '
             'generated monitor states (including malformed data), peer '
             'statuses, failures and refusals against a model of eligible '
             'peers')
NOTE = ('Peers are real eventer servers without events. Connections and '
        'remote activity are compared with the model whenever enough time '
        'passed since the last change (5 s reconnect delay, 45 s detection '
        'of silent loss); attempts to connect are checked always.')

import asyncio
import collections

from hypothesis import strategies as st

from vlib import gen, net, sim
from vlib.core import Sub, check

from hat import aio
from hat.drivers import tcp
from hat.event import common
from hat.event import eventer
from hat.event.server.eventer_client import SyncedState
from hat.event.server.eventer_client_runner import EventerClientRunner
import hat.monitor.common
import hat.monitor.component

GROUP = 'event'
NAME = 'self'
SERVER = 1
PORTS = [5001 + i for i in range(40)]
RECONNECT = 5

_index = st.integers(0, 2)
_statuses = ['STANDBY', 'STARTING', 'OPERATIONAL', 'STOPPING']

_data = st.fixed_dictionaries({
    'server_id': st.sampled_from([2, 2, 3, 4, 0, SERVER]),
    'port': _index,
    'token': st.sampled_from(['a', 'a', 'b', 'A', '', 'ž', None, None]),
    'extra': st.booleans()})
_malformed = gen.one_of(
    gen.json_data,
    st.tuples(_data, st.sampled_from([
        ['server_id'], ['eventer_server'], ['eventer_server', 'host'],
        ['eventer_server', 'port'], ['server_token']]),
        gen.one_of(st.just('delete'), gen.json_data)).map(
            lambda i: {'data': i[0], 'path': i[1], 'value': i[2]}))

_component = gen.weighted(
    (6, st.fixed_dictionaries({
        'group': st.sampled_from([GROUP, GROUP, GROUP, GROUP, 'other', None]),
        'data': _data})),
    (1, st.fixed_dictionaries({'group': st.just(GROUP),
                               'malformed': _malformed})))

_monitor = st.tuples(
    st.just('monitor'), st.lists(_component, max_size=4),
    st.sampled_from(['first', 'last', 'missing', 'none']))

_op = gen.weighted(
    (4, _monitor),
    (4, st.tuples(st.just('status'), _index, st.sampled_from(_statuses))),
    (1, st.tuples(st.just('down'), _index)),
    (2, st.tuples(st.just('up'), _index)),
    (1, st.tuples(st.just('refuse'), _index, st.booleans())),
    (2, st.tuples(st.just('cut'), _index, net.delay, net.delay)),
    (1, st.tuples(st.just('blackhole'), _index)))

_pause = gen.timing([0, 0, -1, -5, 5, 1000, 1000, 8000, 8000, 60_000])


def strategy():
    step = st.tuples(_op, _pause)
    return st.fixed_dictionaries({
        'net': net.conf,
        'token': st.sampled_from([None, None, 'a', 'a', 'a', '', 'ž']),
        'up': st.lists(st.sampled_from([True, True, True, False]),
                       min_size=3, max_size=3),
        'status': st.lists(st.sampled_from(_statuses), min_size=3,
                           max_size=3),
        'start': st.lists(_data, max_size=3),
        'ops': gen.one_of(st.lists(step, min_size=1, max_size=6),
                          st.lists(step, min_size=5, max_size=16))}).map(
                              gen.usual_token)


def many_strategy():
    """Great number of peers"""
    count = 40
    index = st.integers(0, count - 1)

    def data(ports):
        return st.fixed_dictionaries({
            'server_id': st.integers(2, 60), 'port': ports,
            'token': st.sampled_from(['a', 'a', 'a', 'b', None]),
            'extra': st.booleans()})

    def listed(parts):
        return [{'group': GROUP, 'data': {
            'server_id': 2 + i, 'port': i % count, 'token': 'a',
            'extra': False}} for start, stop in parts
            for i in range(start, stop)]

    parts = st.lists(st.tuples(index, st.integers(1, count)),
                     max_size=2).map(listed)
    monitor = st.tuples(
        st.just('monitor'), st.builds(
            lambda i, j: i + j, parts, st.lists(st.fixed_dictionaries({
                'group': st.just(GROUP), 'data': data(index)}),
                max_size=5)),
        st.sampled_from(['first', 'last', 'missing']))
    op = gen.weighted(
        (4, monitor),
        (4, st.tuples(st.just('status'), index, st.sampled_from(_statuses))),
        (1, st.tuples(st.just('down'), index)),
        (2, st.tuples(st.just('up'), index)),
        (2, st.tuples(st.just('cut'), index, net.delay, net.delay)))
    statuses = st.one_of(
        st.just(['STANDBY'] * count), st.just(['STANDBY'] * count),
        index.map(lambda i: ['OPERATIONAL' if i == j else 'STANDBY'
                             for j in range(count)]))
    return st.fixed_dictionaries({
        'net': net.conf,
        'token': st.sampled_from([None, 'a', 'a']),
        'up': st.sampled_from([[True] * count, [True, True, False] * 13 +
                               [True]]),
        'status': statuses,
        'start': parts.map(lambda i: [j['data'] for j in i]),
        'ops': st.lists(st.tuples(op, _pause), min_size=1, max_size=6)})


def many_run(case, ctx):
    run(case, ctx)
    most = max([len(case['start']), *(
        len(op[1]) for op, _ in case['ops'] if op[0] == 'monitor')])
    ctx.label('more than 10 peers', most > 10)
    ctx.nontrivial = ctx.nontrivial and most > 10


def _to_data(spec):
    data = {'server_id': spec['server_id'],
            'eventer_server': {'host': '127.0.0.1',
                               'port': PORTS[spec['port']]},
            'server_token': spec['token']}
    if spec['extra']:
        data['something'] = [1, 2]
    return data


def _to_malformed(spec):
    if not (isinstance(spec, dict) and set(spec) == {'data', 'path',
                                                     'value'} and
            isinstance(spec['path'], list)):
        return spec
    data = _to_data(spec['data'])
    obj = data
    for i in spec['path'][:-1]:
        obj = obj[i]
    if spec['value'] == 'delete':
        del obj[spec['path'][-1]]
    else:
        obj[spec['path'][-1]] = spec['value']
    return data


def _eligible(data, token):
    """(server id, host, port) of valid data"""
    if not isinstance(data, dict):
        return
    server = data.get('eventer_server')
    if not isinstance(server, dict):
        return
    if (type(data.get('server_id')) is not int or
            not isinstance(server.get('host'), str) or
            type(server.get('port')) is not int or
            not isinstance(data.get('server_token'), (str, type(None)))):
        return
    if token is not None and data.get('server_token') != token:
        return
    return data['server_id'], server['host'], server['port']


def _ambiguous(data):
    """Booleans in place of numbers are neither valid nor invalid"""
    if not isinstance(data, dict):
        return False
    server = data.get('eventer_server')
    return (isinstance(data.get('server_id'), bool) or
            isinstance(server, dict) and isinstance(server.get('port'), bool))


class _Backend(aio.Resource):

    def __init__(self):
        self._group = aio.Group()

    @property
    def async_group(self):
        return self._group

    async def get_last_event_id(self, server_id):
        return common.EventId(server_id, 0, 0)

    async def register(self, events):
        return events


class _Peer:

    def __init__(self, index, status):
        self.index = index
        self.port = PORTS[index]
        self.status = common.Status[status]
        self.server = None
        self.refusing = False
        self.accepted = collections.Counter()  # connections by server id
        self.since = {}
        self.disturbed = -100
        self.registered = []  # (info, event)
        self.links = []

    async def up(self):
        self.server = await eventer.listen(
            tcp.Address('127.0.0.1', self.port), status=self.status,
            connected_cb=self._on_connected, register_cb=self._on_register)

    def _on_connected(self, info):
        if self.refusing:
            raise Exception('refused')
        self.accepted[info.server_id] += 1
        self.since[info.id] = asyncio.get_running_loop().time()

    def _on_register(self, info, events):
        self.registered.extend((info, i) for i in events)

    def connections(self):
        if self.server is None:
            return []
        return self.server.get_conn_infos()


def run(case, ctx, synced_only=False):
    """Connections, or only progress of synchronisation (C24)"""
    async def main(loop):
        peers = [_Peer(i, status) for i, status in enumerate(case['status'])]
        by_port = {i.port: i for i in peers}
        eligible = set()
        ever = set()
        until = {}  # last time when ports were eligible
        attempts = []

        def refuse(port):
            attempts.append((loop.time(), port))
            if synced_only:
                return False
            # connecting could have been started before the last change
            check(any(i[2] == port for i in eligible) or
                  until.get(port, -1) > loop.time() - 0.1,
                  'connecting to port %s, eligible are %r', port, eligible)
            return False

        def on_link(link):
            by_port[link.port].links.append(link)

        loop.net.refuse = refuse
        loop.net.on_link = on_link

        for peer in peers:
            if case['up'][peer.index]:
                await peer.up()

        synced = []

        def synced_cb(server_id, state, count):
            check(isinstance(state, SyncedState), 'state %r', state)
            synced.append((server_id, state, count))

        runner = EventerClientRunner(
            conf={'name': NAME, 'server_id': SERVER,
                  'server_token': case['token'],
                  'monitor_component': {'group': GROUP}},
            backend=_Backend(), synced_cb=synced_cb)

        changes = []

        def on_active(value):
            if synced_only:
                return
            check(value == runner.remote_active, 'callback with %r, '
                  'remote_active is %r', value, runner.remote_active)
            check(value != (changes[-1] if changes else False),
                  'activity did not change')
            changes.append(value)

        runner.register_remote_active_cb(on_active)
        check(runner.remote_active is False, 'initial remote_active')

        quiet = {'at': 0}

        def busy(seconds):
            quiet['at'] = max(quiet['at'], loop.time() + seconds)

        def component(cid, group, data):
            return hat.monitor.common.ComponentInfo(
                cid=cid, mid=0, name=f'c{cid}', group=group, data=data,
                rank=1,
                blessing_req=hat.monitor.common.BlessingReq(None, None),
                blessing_res=hat.monitor.common.BlessingRes(None, True))

        def set_state(specs, position):
            components = []
            for cid, spec in enumerate(specs):
                data = (_to_data(spec['data']) if 'data' in spec
                        else _to_malformed(spec['malformed']))
                item = _eligible(data, None)
                if _ambiguous(data) or (item and (
                        item[1] != '127.0.0.1' or item[2] not in by_port)):
                    # other hosts and ports do not exist
                    continue
                components.append(component(cid, spec['group'], data))
                if 'malformed' in spec:
                    ctx.label('malformed data')
            for _, __, port in eligible:
                until[port] = loop.time()
            eligible.clear()
            for i in components:
                if i.group == GROUP:
                    item = _eligible(i.data, case['token'])
                    if item:
                        eligible.add(item)
                        ever.add((item[0], item[2]))
            info = component(100, GROUP, {
                'server_id': SERVER,
                'eventer_server': {'host': '127.0.0.1', 'port': 9999},
                'server_token': case['token']})
            if position == 'first':
                components.insert(0, info)
            elif position == 'last':
                components.append(info)
            runner.set_monitor_state(hat.monitor.component.State(
                info=info if position in ('first', 'last') else None,
                components=components))

        def connected():
            result = collections.Counter()
            for peer in peers:
                for info in peer.connections():
                    result[info.server_id, peer.port] += 1
                    check(info.client_name == f'event/{NAME}' and
                          info.client_token == case['token'] and
                          info.persisted is True and
                          list(info.subscription.get_query_types()) ==
                          [('*', )], 'connection %r', info)
            return result

        def verify():
            if synced_only:
                verify_synced()
                return
            if loop.time() <= quiet['at']:
                return
            now = connected()
            check(all(i <= 1 for i in now.values()) and set(now) <= ever,
                  'connections %r', now)
            required = collections.Counter()
            for item in eligible:
                peer = by_port[item[2]]
                if peer.server is not None and not peer.refusing:
                    required[item[0], item[2]] = 1
            missing = required - now
            check(not missing, 'not connected to %r (connected %r)', missing,
                  now)
            active = any(by_port[port].status != common.Status.STANDBY
                         for _, port in now)
            check(runner.remote_active is active, 'remote_active is %r, '
                  'connected are %r', runner.remote_active,
                  [(i, by_port[i[1]].status) for i in now])
            check((changes[-1] if changes else False) == active,
                  'change is not announced')
            ctx.label('verified states')
            if now:
                ctx.label('verified states with connection')
                ctx.nontrivial = True

        def settled(peer):
            """Connections which are not disturbed"""
            if peer.disturbed > loop.time() - 60:
                return []
            return [i for i in peer.connections()
                    if peer.since[i.id] < loop.time() - 3]

        def verify_synced():
            """Each connection was synchronised, without any events"""
            accepted = sum((i.accepted for i in peers),
                           collections.Counter())
            live = collections.Counter()
            for peer in peers:
                for info in settled(peer):
                    live[info.server_id] += 1
                    ctx.nontrivial = True
            reported = collections.defaultdict(list)
            for server_id, *i in synced:
                reported[server_id].append(i)
            check(set(reported) <= set(accepted),
                  'synced with %r, connections were with %r', set(reported),
                  set(accepted))
            for server_id, items in reported.items():
                connected_count = items.count([SyncedState.CONNECTED, None])
                synced_count = items.count([SyncedState.SYNCED, 0])
                check(connected_count + synced_count == len(items),
                      'synced callback of server without events %r', items)
                check(live[server_id] <= synced_count <= connected_count <=
                      accepted[server_id], 'synced callback of %s: %s '
                      'CONNECTED, %s SYNCED, %s connections (%s live)',
                      server_id, connected_count, synced_count,
                      accepted[server_id], live[server_id])
            for server_id, count in live.items():
                check(not count or server_id in reported,
                      'synced is not reported for server %s', server_id)
            for peer in peers:
                states = collections.defaultdict(list)
                for info, event in peer.registered:
                    check(event.type == ('event', str(SERVER), 'synced',
                                         str(info.server_id)) and
                          event.source_timestamp is None,
                          'registered by connection to %s: %r',
                          info.server_id, event)
                    states[info.id].append(event.payload.data)
                for info in settled(peer):
                    found = states[info.id]
                    check(found[:1] == [{'state': 'CONNECTED'}] and
                          {'state': 'SYNCED', 'count': 0} in found,
                          'connection to %s registered %r', info.server_id,
                          found)

        async def settle():
            await asyncio.sleep(max(0, quiet['at'] - loop.time()) + 0.5)

        if case['start']:
            set_state([{'group': GROUP, 'data': i} for i in case['start']],
                      'first')
            busy(RECONNECT + 1)

        for op, ms in case['ops']:
            if op[0] == 'monitor':
                set_state(op[1], op[2])
                busy(RECONNECT + 1)

            elif op[0] == 'status':
                peer = peers[op[1]]
                peer.status = common.Status[op[2]]
                if peer.server is not None:
                    await sim.within(10, peer.server.set_status(peer.status),
                                     'status')
                busy(0.5)

            elif op[0] == 'down':
                peer = peers[op[1]]
                if peer.server is not None:
                    await sim.within(100, peer.server.async_close(),
                                     'closing of peer')
                    peer.server = None
                    busy(RECONNECT + 1)

            elif op[0] == 'up':
                peer = peers[op[1]]
                if peer.server is None:
                    await peer.up()
                    ctx.label('peer is available again')
                    busy(RECONNECT + 1)

            elif op[0] == 'refuse':
                peers[op[1]].refusing = op[2]
                busy(RECONNECT + 1)

            else:
                links = [i for i in peers[op[1]].links if i.active]
                if links:
                    net.break_link(links[-1], op)
                    peers[op[1]].disturbed = loop.time() - (
                        0 if op[0] == 'blackhole' else 50)
                    ctx.label(f'connection {op[0]}')
                    busy(RECONNECT + 1 +
                         (45 if op[0] == 'blackhole' else 0))

            await net.pause(ms)
            verify()

        await settle()
        verify()
        if synced_only:
            await sim.within(100, runner.async_close(), 'closing of runner')
            return
        check(runner.is_open, 'runner is closed')
        await sim.within(100, runner.async_close(), 'closing of runner')
        await asyncio.sleep(60)
        check(not connected(), 'connections of closed runner')
        for peer in peers:
            if peer.server is not None:
                await sim.within(100, peer.server.async_close(), 'closing')
        check(not loop.errors, 'unhandled errors %r', loop.errors)

    sim.run(main, {'net': case['net']})


SUBS = [
    Sub('peers', strategy, run, 4000, 80000,
        'cases with at least one verified state with connected peer'),
    Sub('many', many_strategy, many_run, 160, 4000,
        'cases with verified state with connected peer and more than 10 '
        'peers')]
