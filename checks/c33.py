"""Redundant servers"""
TECHNIQUE = ('stateful property-based testing of several complete servers '
             'with a scripted monitor, simulated network and real databases: '
             'generated designations, client activity, lost connections, '
             'stops and restarts against invariants over the whole history')
NOTE = ('Servers do not lose their databases and clock does not step back. '
        'Everything is compared when all servers had time to reconnect; '
        'engines and takeovers are checked each time engine is started, with '
        '0.5 s for notifications in transit.')

import asyncio

from hypothesis import strategies as st

from checks import c32
from vlib import cluster, gen, lmdbm, net, sim
from vlib.core import Sub, check

from hat.event import common

MARGIN = 0.5
SYNCED = 6  # connected and synchronized

_server = st.integers(0, 2)

_stop = gen.one_of(
    st.tuples(st.just('stop'), _server),
    st.tuples(st.just('stop'), _server),
    st.tuples(st.just('monitor cut'), _server))

_op = gen.weighted(
    (8, st.tuples(st.just('register'), st.none() | _server, c32._events,
                  st.sampled_from([True, True, False]), st.booleans())),
    (5, st.tuples(st.just('designate'),
                  gen.one_of(_server, _server, _server, st.none()))),
    (2, _stop),
    (3, st.tuples(st.just('start'), _server)),
    (2, st.tuples(st.just('break'), _server, st.integers(1, 2),
                  st.sampled_from(['cut', 'cut', 'blackhole']), net.delay,
                  net.delay)),
    (2, st.tuples(st.just('module'), st.sampled_from(
        ['restart', 'restart', 'reset']))),
    (5, st.tuples(st.just('handover'), _server, c32._events,
                  st.sampled_from([7000, 7000, 10, 0]),
                  gen.timing([0, 0, -3, 5, 300, 4000]))),
    (1, st.tuples(st.just('settle'))))

_pause = gen.timing([0, 0, -2, 1, 5, 20, 300, 2000, 2000, 9000])


@st.composite
def strategy(draw):
    n = draw(st.sampled_from([2, 2, 2, 3]))
    step = st.tuples(_op, _pause)
    return {
        'n': n,
        'by_source': draw(st.booleans()),
        'latest': draw(st.booleans()),
        'flush': draw(st.lists(st.sampled_from([3, 3, 10, 25]),
                               min_size=n, max_size=n)),
        'modules': draw(st.sampled_from([[0], [0, 20], [0, 0]])),
        'close_delay': draw(st.sampled_from([0, 0, 20, 2000])),
        'token': draw(st.sampled_from([None, 'a'])),
        'start': draw(st.lists(st.sampled_from([True] * 4 + [False]),
                               min_size=n, max_size=n)),
        'designated': draw(_server),
        'ids': draw(st.sampled_from([[1, 2, 3], [3, 2, 1], [0, 1, 2]])),
        'net': draw(net.conf), 'sim': draw(lmdbm.sim_conf),
        'ops': draw(gen.one_of(st.lists(step, max_size=6),
                               st.lists(step, min_size=5, max_size=20),
                               st.lists(step, min_size=8, max_size=20)))}


class _Node:

    def __init__(self, run, server):
        self.run = run
        self.server = server
        self.witness = None
        self.persisted = None
        self.task = None  # closing
        self.expected = {}  # events accepted by others when engine started

    @property
    def alive(self):
        return self.server.alive and not self.server.ending

    async def start(self):
        await asyncio.wait([self.task]) if self.task else None
        self.task = None
        self.server.start()
        self.witness = cluster.Conn(self.server, f'witness {self.server.id}')
        self.witness.on_status = self.on_status
        self.persisted = cluster.Conn(
            self.server, f'persisted {self.server.id}', persisted=True)
        await self.persisted.connect_within(20)
        await self.witness.connect_within(20)
        self.run.busy(13)

    def stop(self, cancel):
        self.server.ending = True
        if cancel:
            self.server.task.cancel()
        self.task = asyncio.ensure_future(self.finish())
        self.run.busy(self.run.case['close_delay'] / 1000 + 10)

    async def finish(self):
        await self.server.finished()
        for conn in (self.witness, self.persisted):
            if conn.client:
                await sim.within(100, conn.client.async_close(), 'closing')
            self.run.notified(conn)

    def healthy(self, other, seconds):
        """Connection used for synchronisation is not disturbed"""
        links = [i for i in self.server.links
                 if i.port == other.server.addr.port]
        return (links and other.alive and not links[-1].client.lost and
                not links[-1].client.blackhole and
                not links[-1].server.lost and
                links[-1].born <= self.run.loop.time() - seconds)

    def engine(self):
        """Time of creation of live engine"""
        live = [i for i in self.server.modules if i.span[1] is None]
        return min((i.span[0] for i in live), default=None)

    def on_starting(self, server):
        run = self.run
        now = run.loop.time()
        check(any(node is self and (end is None or end >= now - MARGIN)
                  for node, end in run.designations),
              'engine of server %s is started and server is not designated',
              server.id)
        self.expected = {}
        for other in run.nodes:
            if other is self:
                continue
            since = other.engine()
            check(since is None or since > now - MARGIN or
                  not self.healthy(other, MARGIN),
                  'engine of server %s is started while engine of server %s '
                  'is working since %s s', server.id, other.server.id,
                  since and now - since)
            starts = [i.span[0] for i in other.server.modules]
            if (since is None and self.healthy(other, SYNCED) and
                    (not starts or max(starts) < now - MARGIN)):
                run.notified(other.witness)
                self.expected[other.server.id] = run.log.of(other.server.id)

    async def on_status(self, conn, status):
        if status == common.Status.OPERATIONAL and conn is self.witness:
            expected, self.expected = self.expected, {}
            self.run.tasks.append(asyncio.ensure_future(
                self.takeover(conn, expected)))

    async def takeover(self, conn, expected):
        for server_id, events in expected.items():
            if not events:
                continue
            kind, e = await sim.outcome(self.stored(server_id, False, conn))
            if kind == 'error':
                check(not self.alive or conn.client.is_closing,
                      'query failed %r', e)
                return
            stored = {i.id: i for i in e}
            for i in events:
                check(gen.same(stored.get(i.id), i),
                      'server %s is operational without event %r',
                      self.server.id, i)
            self.run.takeovers += 1
            self.run.ctx.label('takeover')

    async def stored(self, server_id, persisted, conn=None):
        conn = conn or self.witness
        events = []
        more = True
        while more:
            result = await conn.client.query(common.QueryServerParams(
                server_id, persisted, None, events[-1].id if events else None))
            page, more = gen.result_of(result)
            check(page or not more, 'more events after empty page')
            events.extend(page)
        cluster.ascending(events, f'stored on {self.server.id}')
        self.run.log.add(events, f'stored on {self.server.id}')
        return events


class _Run:
    Node = _Node

    def __init__(self, case, ctx, loop):
        self.case = case
        self.ctx = ctx
        self.loop = loop
        self.log = cluster.Log()
        self.quiet = loop.time()
        self.tasks = []
        self.acked = []
        self.takeovers = 0
        self.designated = None
        self.designations = []  # (node, end)

    def busy(self, seconds):
        self.quiet = max(self.quiet, self.loop.time() + seconds)

    def notified(self, conn):
        cluster.ascending(conn.got, conn.name)
        self.log.add(conn.got, conn.name)

    async def run(self):
        case = self.case
        self.monitor = cluster.Monitor()
        await self.monitor.start()
        self.nodes = []
        # everything is stored by the first one
        pool = [{'by_source': i, 'subscriptions': [['*']]}
                for i in ([False, True] if case['by_source'] else [False])]
        conf = {'latest': [['*']] if case['latest'] else [],
                'parts': [[i, None] for i in range(len(pool))], 'conditions': []}
        for i in range(case['n']):
            server = cluster.Server(
                case['ids'][i], {'module': 'hat.event.backends.lmdb',
                        **lmdbm.backend_conf(
                            pool, conf, self.ctx.tmp / f'db{i}',
                            flush_period=case['flush'][i])},
                modules=case['modules'], monitor=True, token=case['token'],
                close_delay=case['close_delay'])
            node = self.Node(self, server)
            server.on_starting = node.on_starting
            self.nodes.append(node)
        await self.designate(case['designated'])
        for node, start in zip(self.nodes, case['start']):
            if start:
                await node.start()

        for op, ms in case['ops']:
            await self.play(op)
            await net.pause(ms)
        for node in self.nodes:
            if not node.alive:
                await node.start()
        await self.settle()

        for node in self.nodes:
            node.stop(True)
        await asyncio.wait([i.task for i in self.nodes])
        for node in self.nodes:
            node.task.result()
        await sim.within(100, self.monitor.server.async_close(), 'closing')
        await asyncio.sleep(10)
        check(not self.loop.errors, 'unhandled errors %r', self.loop.errors)
        self.ctx.nontrivial = self.takeovers > 1 and bool(self.acked)

    def node(self, index):
        return self.nodes[index % len(self.nodes)]

    async def designate(self, index):
        if self.designations and self.designations[-1][1] is None:
            self.designations[-1] = (self.designations[-1][0],
                                     self.loop.time())
        self.designated = None if index is None else self.node(index)
        if self.designated:
            self.designations.append((self.designated, None))
        await self.monitor.designate(
            self.designated and self.designated.server.name)
        self.busy(self.case['close_delay'] / 1000 + 3)

    async def play(self, op):
        if op[0] == 'register':
            node = self.designated if op[1] is None else self.node(op[1])
            if node and node.alive:
                task = asyncio.ensure_future(self.register(node, op[2],
                                                           op[3]))
                self.tasks.append(task)
                if op[4]:
                    await sim.within(100, asyncio.wait([task]), 'register')

        elif op[0] == 'bulk':
            node = self.designated
            if node and node.alive:
                task = asyncio.ensure_future(self.register(
                    node, [{'type': op[2], 'st': [i % 7, 0], 'payload': None}
                           for i in range(op[1])], True))
                self.tasks.append(task)
                await sim.within(100, asyncio.wait([task]), 'register')
                self.busy(10)

        elif op[0] == 'designate':
            await self.designate(op[1])

        elif op[0] == 'stop':
            node = self.node(op[1])
            if node.alive:
                self.ctx.label('stop')
                node.stop(True)

        elif op[0] == 'monitor cut':
            node = self.node(op[1])
            if node.alive:
                links = [i for i in node.server.links
                         if i.port == cluster.MONITOR.port]
                if links:
                    self.ctx.label('monitor lost')
                    links[-1].cut(0, 0)
                    node.stop(False)

        elif op[0] == 'start':
            node = self.node(op[1])
            if not node.alive:
                await node.start()

        elif op[0] == 'break':
            node, other = self.node(op[1]), self.node(op[1] + op[2])
            links = [i for i in node.server.links
                     if i.port == other.server.addr.port]
            if links and node.alive and other is not node:
                self.ctx.label(f'connection {op[3]}')
                net.break_link(links[-1], [op[3], 0, op[4], op[5]])
                self.busy(10 if op[3] == 'cut' else c32.SILENT + 10)

        elif op[0] == 'module':
            node = self.designated
            if node and node.alive and node.witness.state == 'connected':
                self.tasks.append(asyncio.ensure_future(
                    sim.outcome(node.witness.client.register([
                        common.RegisterEvent(('m', op[1]), None, None)]))))
                self.busy(self.case['close_delay'] / 1000 + 3)
                if op[1] == 'reset':
                    self.busy(40)

        elif op[0] == 'handover':
            await net.pause(op[3])
            alive = [i for i in self.nodes
                     if i.alive and i is not self.designated]
            if self.designated and self.designated.alive:
                self.tasks.append(asyncio.ensure_future(
                    self.register(self.designated, op[2], True)))
                await net.pause(op[4])
            if alive:
                await self.designate(
                    self.nodes.index(alive[op[1] % len(alive)]))

        elif op[0] == 'settle':
            await self.settle()

    async def register(self, node, specs, with_response):
        conn = node.witness
        if conn.state != 'connected':
            return
        events = [common.RegisterEvent(
            tuple(i['type']), gen.to_ts(i['st']), gen.to_payload(i['payload']))
            for i in specs]
        kind, result = await sim.outcome(conn.client.register(
            events, with_response))
        if kind == 'error':
            check(not conn.alive, 'registration failed: %r', result)
            return
        if not with_response or result is None:
            return
        result = gen.events_of(result, 'registration result')
        check(len(result) == len(events) and all(
            gen.same(r, common.Event(r.id, e.type, r.timestamp,
                                     e.source_timestamp, e.payload)) and
            r.id.server == node.server.id for r, e in zip(result, events)),
            'registration of %r ended with %r', events, result)
        self.log.add(result, 'registration result')
        self.acked.extend(result)
        self.ctx.label('acknowledged')

    async def settle(self):
        await asyncio.sleep(max(0, self.quiet - self.loop.time()))
        if self.tasks:
            await sim.within(200, asyncio.wait(self.tasks), 'requests')
            for task in self.tasks:
                task.result()
            self.tasks.clear()
        nodes = [i for i in self.nodes if i.alive]
        for node in self.nodes:
            check(node.server.ending or node.server.alive,
                  'server %s is stopped', node.server.id)
            if node.task:
                check(node.task.done(), 'server %s is not stopped',
                      node.server.id)
                node.task.result()
        for node in nodes:
            status = (common.Status.OPERATIONAL if node is self.designated
                      else common.Status.STANDBY)
            for conn in (node.witness, node.persisted):
                check(conn.state == 'connected' and conn.client.is_open and
                      conn.client.status == conn.statuses[-1] == status,
                      'server %s has status %s', node.server.id,
                      conn.client.status)
            check((node.engine() is not None) == (node is self.designated),
                  'engine of server %s', node.server.id)
        if self.designated and self.designated.alive:
            result = await sim.within(
                20, self.designated.witness.client.register(
                    [common.RegisterEvent(('a', ), None, None)], True),
                'registration')
            check(result is not None, 'registration failed')
            self.log.add(result, 'registration result')
        # everything is flushed
        for node in nodes:
            self.notified(node.witness)
            self.notified(node.persisted)
        flush = max(self.case['flush'])
        await asyncio.sleep(flush * 2 + 2)

        stored = {}
        for node in nodes:
            self.notified(node.witness)
            self.notified(node.persisted)
            for other in self.nodes:
                for persisted in (False, True):
                    stored[node, other, persisted] = await sim.within(
                        20, node.stored(other.server.id, persisted), 'query')
        for event in self.acked:
            check(event.id in self.log.events, 'missing %r', event)
        for (node, other, persisted), events in stored.items():
            known = self.log.of(other.server.id)
            what = (f'events of server {other.server.id} on server '
                    f'{node.server.id} (persisted {persisted})')
            # without gaps
            check(gen.same(events, known[:len(events)]),
                  '%s are %r, known are %r', what, events, known)
            if node is other or other.alive:
                check(len(events) == len(known), '%s: missing %r', what,
                      known[len(events):])
        for node in nodes:
            for conn in (node.witness, node.persisted):
                for other in nodes:
                    got = [i for i in conn.got
                           if i.id.server == other.server.id]
                    known = self.log.of(other.server.id)
                    check(gen.same(got, known[-len(got):] if got else []),
                          '%s of events of server %s got %r, known are %r',
                          conn.name, other.server.id, got, known)
        self.ctx.label('settled')


def run(case, ctx, run_type=_Run):
    async def main(loop):
        net.track(loop)
        run_ = run_type(case, ctx, loop)
        await run_.run()
        return run_

    return sim.run(main, {'net': case['net'], **case['sim']})


@st.composite
def bulk_strategy(draw):
    bulk = st.tuples(st.just('bulk'),
                     st.sampled_from([1, 1000, 3000, 4093, 4094, 4095, 4096,
                                      5000]),
                     st.sampled_from([['a'], ['b', 'c']]))
    op = gen.weighted(
        (3, bulk),
        (1, st.tuples(st.just('stop'), _server)),
        (2, st.tuples(st.just('start'), _server)),
        (2, st.tuples(st.just('handover'), _server, c32._events,
                      st.sampled_from([7000, 7000, 0]),
                      st.sampled_from([0, 5, 300]))))
    start = draw(st.sampled_from([[True, True], [True, False]]))
    first = draw(st.sampled_from([1000, 4093, 4095, 4096, 5000, 8300]))
    return {
        'n': 2, 'by_source': draw(st.booleans()),
        'latest': draw(st.booleans()), 'flush': [3, 3], 'modules': [0],
        'close_delay': 0, 'token': None, 'start': start, 'designated': 0,
        'ids': draw(st.sampled_from([[1, 2, 3], [0, 1, 2]])),
        'net': {}, 'sim': draw(lmdbm.sim_conf),
        'ops': [[['bulk', first, ['a']], 5000],
                *draw(st.lists(st.tuples(op, st.sampled_from([0, 20, 9000])),
                               min_size=1, max_size=3)),
                [['start', 1], 0], [['handover', 0, [], 7000, 0], 0]]}


def bulk_run(case, ctx):
    result = run(case, ctx)
    ctx.nontrivial = (result.takeovers > 0 and sum(
        op[1] for op, _ in case['ops'] if op[0] == 'bulk') > 4090)


SUBS = [
    Sub('bulk', bulk_strategy, bulk_run, 32, 800,
        'more than 4090 events registered, verified takeover'),
    Sub('servers', strategy, run, 500, 20000,
        'cases with more verified takeovers and acknowledged events')]
