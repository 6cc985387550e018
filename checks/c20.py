"""Event notifications of eventer server"""
TECHNIQUE = ('stateful property-based testing with a simulated network: '
             'generated clients, notifications, delays and connection losses '
             'against per-client expected notification sequences')
NOTE = ('Server and clients run over an in-memory network with generated '
        'latencies, chunking and connection failures. A client connecting '
        'while a notification is sent may or may not get it; a client whose '
        'connection is lost must have got a prefix.')

import asyncio

from hypothesis import strategies as st

from vlib import gen, lmdbm, model, net, sim
from vlib.core import Sub, check

from hat.event import common
from hat.event import eventer

ADDR = net.ADDR
# processing of a notification
LONG = 70_000
SERVERS = [0, 1, 2, 2**40]

_type = st.sampled_from([['a'], ['b'], ['a', 'b'], ['ab'], ['a', 'b', 'c'], ['b', 'a'],
                         [], ['č', '']])
_query_type = gen.one_of(_type, st.sampled_from(
    [['*'], ['*'], ['a', '*'], ['?'], ['?', 'b'], ['a', '?'], ['b', '*']]))

_client = st.fixed_dictionaries({
    # names are not unique
    'name': gen.weighted((2, st.none()), (1, st.sampled_from(
        ['client0', 'c', '']))),
    'subs': gen.weighted((2, st.just([['*']])),
                         (1, st.lists(_query_type, max_size=3))),
    'server': gen.one_of(st.none(), st.none(), st.integers(0, 3)),
    'persisted': st.booleans(),
    'cb': st.sampled_from(['sync', 'sync', 'async', 'async', 'async',
                           'async', 'none']),
    'delay': gen.weighted(
        (16, st.lists(gen.timing([0, 0, -1, 1, 5, 30, 3000]),
                      max_size=3)),
        (1, st.just([LONG])))})

_event = st.fixed_dictionaries({
    'srv': st.integers(0, 3), 'type': _type,
    'st': st.none() | gen.timestamp, 'payload': gen.payload})

_events = gen.one_of(st.lists(_event, min_size=1, max_size=5),
                    st.lists(_event, max_size=2))

_notify = st.tuples(st.just('notify'), _events, st.booleans(), st.booleans(),
                    st.booleans())

_fault = net.fault(st.integers(0, 3))

_noticed_fault = _fault.filter(lambda i: i[0] != 'blackhole')

_op = gen.weighted(
    (12, _notify), (1, _fault),
    (1, st.tuples(st.just('race'), _fault, st.integers(0, 12), _notify)),
    (3, st.tuples(st.just('late'), _noticed_fault,
                  gen.weighted((3, st.just(0)), (1, st.integers(1, 5))),
                  st.booleans())),
    (4, st.tuples(st.just('connect'), st.integers(0, 3), st.booleans())))


def strategy():
    step = st.tuples(_op, net.delay)
    return st.fixed_dictionaries({
        'clients': gen.one_of(
            st.lists(_client, min_size=2, max_size=5),
            st.lists(_client, min_size=1, max_size=4)),
        'net': net.conf,
        'first': st.sampled_from([4, 4, 2, 1, 0]),
        'ops': gen.one_of(st.lists(step, min_size=1, max_size=8),
                         st.lists(step, min_size=8, max_size=20))})


def great_strategy():
    """Many clients and great notifications"""
    spec = st.fixed_dictionaries({
        'srv': st.integers(0, 3), 'type': _type, 'st': st.none(),
        'payload': st.sampled_from([None, {'json': 'x' * 200}])})
    notify = st.tuples(st.just('notify'),
                       st.lists(spec, min_size=1, max_size=3), st.booleans(),
                       st.booleans(), st.booleans(),
                       st.sampled_from([1, 100, 400, 900, 1800, 3500]))
    step = st.tuples(gen.weighted(
        (12, notify), (1, _fault),
        (2, st.tuples(st.just('connect'), st.integers(0, 60),
                      st.booleans()))), net.delay)
    return st.fixed_dictionaries({
        'clients': st.lists(_client, min_size=1, max_size=3),
        'many': st.sampled_from([1, 1, 1, 20]),
        'net': net.conf,
        'first': st.sampled_from([100, 100, 2]),
        'ops': st.lists(step, min_size=1, max_size=5)})


def great_run(case, ctx):
    clients = case['clients'] * case['many']
    # limited duration of a case
    limit = 30_000 // len(clients)
    ops = [([*op[:5], min(op[5], max(limit // len(op[1]), 1))]
            if op[0] == 'notify' else op, delay)
           for op, delay in case['ops']]
    case = {**case, 'ops': ops}
    run({**case, 'clients': clients}, ctx)
    count = max(len(op[1]) * op[5] for op, _ in case['ops']
                if op[0] == 'notify') if any(
                    op[0] == 'notify' for op, _ in case['ops']) else 0
    ctx.label('more than 1000 events', count > 1000)
    ctx.label('more than 19 clients', case['many'] > 19)
    ctx.nontrivial = ctx.nontrivial and (count > 1000 or case['many'] > 19)


class _Conn:
    """Single connection of a client"""

    def __init__(self, index, conf):
        self.index = index
        self.conf = conf
        self.state = 'connecting'  # connected, lost
        self.client = None
        self.link = None
        self.got = []  # [events, start time, end time]
        self.delay = sim.Cyc(conf['delay'])
        self.active = 0
        self.connected_at = None
        self.started = None
        self.lost_at = None

    async def connect(self):
        loop = asyncio.get_running_loop()

        def sync_cb(client, events):
            self.received(events)
            self.got[-1][2] = loop.time()

        async def async_cb(client, events):
            check(not self.active, 'overlapping notifications')
            self.active += 1
            self.received(events)
            entry = self.got[-1]
            try:
                await net.pause(self.delay.next())
                entry[2] = loop.time()
            finally:
                self.active -= 1

        cb = {'sync': sync_cb, 'async': async_cb, 'none': None}
        self.client = await eventer.connect(
            ADDR, (f'client{self.index}' if self.conf.get('name') is None
                   else self.conf['name']),
            subscriptions=[tuple(i) for i in self.conf['subs']],
            server_id=(SERVERS[self.conf['server']]
                       if self.conf['server'] is not None else None),
            persisted=self.conf['persisted'], events_cb=cb[self.conf['cb']])
        if self.state == 'connecting':
            self.state = 'connected'

    def received(self, events):
        events = gen.events_of(events, 'notification')
        check(events, 'empty notification')
        self.got.append([events, asyncio.get_running_loop().time(), None])

    def lost(self):
        if self.state != 'lost':
            self.state = 'lost'
            self.lost_at = asyncio.get_running_loop().time()

    def filter(self, events):
        return [i for i in events
                if model.any_matches(i.type, self.conf['subs']) and
                (self.conf['server'] is None or
                 i.id.server == SERVERS[self.conf['server']])]


class _Notify:

    def __init__(self, events, persisted, ack, conns, time):
        self.events = events
        self.persisted = persisted
        self.ack = ack
        # connections existing when notification starts
        self.must = [i for i in conns if i.state == 'connected']
        self.may = [i for i in conns if i.state == 'connecting']
        self.time = time
        self.done = None


def run(case, ctx):
    async def main(loop):
        server = await eventer.listen(ADDR)
        conns = []
        current = {}
        notifies = []
        tasks = []
        ids = {}

        net.track(loop)

        async def connect(index, wait):
            index %= len(case['clients'])
            prev = current.get(index)
            if prev and prev.state != 'lost':
                return
            conn = _Conn(index, case['clients'][index])
            current[index] = conn
            conns.append(conn)
            task = asyncio.ensure_future(establish(conn))
            tasks.append(task)
            if wait:
                await sim.within(5000, asyncio.wait([task]), 'connect')

        async def establish(conn):
            net.connecting.set(conn)
            kind, e = await sim.outcome(conn.connect())
            if kind == 'error':
                check(conn.state == 'lost', 'connecting failed: %r', e)
            elif conn.state == 'lost':
                await conn.client.async_close()

        for i in range(min(case['first'], len(case['clients']))):
            await connect(i, True)

        def notify(specs, persisted, ack):
            events = []
            for spec in specs:
                srv = SERVERS[spec['srv']]
                n = ids[srv] = ids.get(srv, 0) + 1
                events.append(common.Event(
                    id=common.EventId(srv, n // 3 + 1, n),
                    type=tuple(spec['type']),
                    timestamp=common.Timestamp(lmdbm.BASE_S, n),
                    source_timestamp=gen.to_ts(spec['st']),
                    payload=gen.to_payload(spec['payload'])))
            notify = _Notify(events, persisted, ack, list(conns),
                             loop.time())
            notifies.append(notify)

            async def call():
                await server.notify_events(
                    gen.collection(notify.events, len(notifies)),
                    notify.persisted, notify.ack)
                notify.done = loop.time()
                # everybody who is still connected has processed it
                if notify.ack:
                    notify.unfinished = [
                        i for i in notify.must
                        if i.state == 'connected' and
                        i.conf['persisted'] == notify.persisted and
                        i.filter(notify.events) and
                        i.conf['cb'] != 'none' and
                        not any(j[2] is not None and
                                j[0][0].id ==
                                i.filter(notify.events)[0].id
                                for j in i.got)]

            task = asyncio.ensure_future(call())
            tasks.append(task)
            return task

        async def play(op):
            if op[0] == 'notify':
                task = notify(op[1] * (op[5] if len(op) > 5 else 1), op[2],
                              op[3])
                if op[4] or not op[3]:
                    await sim.within(5000, asyncio.wait([task]),
                                     'notification')
                else:
                    # calls with acknowledgement are started in order
                    await asyncio.sleep(0.0001)

            elif op[0] == 'race':
                # while server is noticing lost connection
                await play(op[1])
                for _ in range(op[2]):
                    await asyncio.sleep(0)
                await play(op[3])

            elif op[0] == 'late':
                # since the moment in which loss reaches the server
                index = sorted(i for i, conn in current.items()
                               if conn.state == 'connected')
                if not index:
                    return
                conn = current[index[op[1][1] % len(index)]]
                await play([op[1][0], conn.index, *op[1][2:]])
                await net.noticed(conn.link.server)
                for _ in range(op[2]):
                    await asyncio.sleep(0)
                ctx.label('notifications when connection is lost')
                spec = {'srv': 0, 'type': ['a'], 'st': None, 'payload': None}
                await sim.within(5000, asyncio.wait([
                    notify([spec], persisted, op[3])
                    for persisted in (False, True)]), 'notifications')

            elif op[0] == 'connect':
                await connect(op[1], op[2])

            else:
                conn = current.get(op[1] % len(case['clients']))
                if conn is None or conn.state != 'connected':
                    return
                conn.lost()
                ctx.label(f'connection {op[0]}')
                if op[0] == 'close':
                    tasks.append(asyncio.ensure_future(
                        conn.client.async_close()))
                else:
                    net.break_link(conn.link, op)

        for op, delay in case['ops']:
            await play(op)
            await net.pause(delay)

        if tasks:
            await sim.within(10_000, asyncio.wait(tasks), 'notifications, '
                             'connecting and closing')
        await asyncio.sleep(100)
        while any(i.active for i in conns):
            await asyncio.sleep(20)
        for task in tasks:
            task.result()

        for notify in notifies:
            for conn in getattr(notify, 'unfinished', []):
                check(False, 'notification of %r acknowledged at %s before '
                      'client %s processed it', notify.events, notify.done,
                      conn.index)

        delivered = 0
        for conn in conns:
            delivered += _verify(conn, notifies)
        ctx.label('delivered notifications', delivered)
        ctx.label('acknowledged', sum(i.ack for i in notifies))
        ctx.nontrivial = delivered > 1

        check(server.is_open, 'server is closed')
        await sim.within(1000, server.async_close(), 'closing of server')
        for conn in conns:
            if conn.client:
                await sim.within(1000, conn.client.wait_closed(),
                                 'closing of clients')
        check(not loop.errors, 'unhandled errors %r', loop.errors)

    sim.run(main, {'net': case['net']})


def _verify(conn, notifies):
    if conn.conf['cb'] == 'none':
        check(not conn.got, 'notified without callback')
        return 0
    expected = []
    for notify in notifies:
        if notify.persisted != conn.conf['persisted']:
            continue
        events = conn.filter(notify.events)
        if not events:
            continue
        if conn in notify.must:
            expected.append((True, events))
        elif conn in notify.may:
            expected.append((False, events))
    i = 0
    for events, _, __ in conn.got:
        while (i < len(expected) and not expected[i][0] and
               not gen.same(expected[i][1], events)):
            i += 1
        check(i < len(expected), 'client %s: unexpected notification %r',
              conn.index, events)
        check(gen.same(expected[i][1], events),
              'client %s: notified %r, expected %r', conn.index, events,
              expected[i][1])
        i += 1
    if conn.state != 'lost':
        rest = [j for must, j in expected[i:] if must]
        check(not rest, 'client %s: missing notifications %r', conn.index,
              rest)
    return len(conn.got)


SUBS = [
    Sub('notify', strategy, run, 2400, 60000,
        'cases with more than one delivered notification'),
    Sub('great', great_strategy, great_run, 64, 1600,
        'cases with more than one delivered notification, with more than '
        '1000 events or more than 19 clients')]
