"""Designation of server by monitor"""
TECHNIQUE = ('stateful property-based testing of a complete server with a '
             'scripted monitor over a simulated network: generated '
             'designations, delayed confirmations, requests of modules and '
             'close requests against a timeline model')
NOTE = ('Reports received by the monitor and engines of the server are '
        'compared with what the monitor sent and modules asked for; 0.5 s are '
        'left for messages in transit.')

import asyncio
import itertools

from hypothesis import strategies as st

from vlib import cluster, gen, lmdbm, net, sim
from vlib.core import Sub, check

from hat.drivers import chatter
from hat.event import common
import hat.monitor.common
import hat.monitor.observer.server

MARGIN = 0.5
TIMEOUT = 30  # waiting to be released by monitor

_op = gen.weighted(
    (4, st.tuples(st.just('designate'), st.sampled_from([True, True, False]))),
    (5, st.tuples(st.just('module'),
                  st.sampled_from(['reset', 'reset', 'reset', 'restart']),
                  st.booleans())),
    (2, st.tuples(st.just('hold'), st.sampled_from([0.1, 2, 10, 28, 33, 60]))),
    (1, st.tuples(st.just('settle'))))

_pause = gen.timing([0, 0, -2, 1, 5, 20, 300, 2000, 2000, 9000, 31000])


@st.composite
def strategy(draw):
    step = st.tuples(_op, _pause)
    return {
        'designated': draw(st.sampled_from([True, True, True, False])),
        'flush': draw(st.sampled_from([3, 25])),
        'modules': draw(st.sampled_from([[0], [0, 20], [0, 3000]])),
        'close_delay': draw(st.sampled_from([0, 0, 20, 2000, 40000])),
        'ops': draw(gen.one_of(st.lists(step, max_size=5),
                               st.lists(step, min_size=4, max_size=15))),
        'end': draw(st.sampled_from(['close request', 'close request',
                                     'lost', 'stop'])),
        'net': draw(net.conf), 'sim': draw(lmdbm.sim_conf)}


class _Monitor:
    """Confirms what is reported by server, maybe later"""

    def __init__(self, loop):
        self.loop = loop
        self.hold = 0
        self.token = None
        self.tokens = 0
        self.count = itertools.count()
        self.reports = []  # (time, token, ready, count)
        self.sent = []  # (time, requested, confirmed, count)
        self.waiting = None

    async def start(self):
        self.server = await hat.monitor.observer.server.listen(
            cluster.MONITOR, state_cb=self._on_state, close_timeout=1)

    @property
    def component(self):
        return next((i for i in self.server.state.local_components
                     if i.name is not None), None)

    async def _on_state(self, server, state):
        info = self.component
        if info:
            res = info.blessing_res.token, info.blessing_res.ready
            if not self.reports or self.reports[-1][1:3] != res:
                self.reports.append((self.loop.time(), *res,
                                     next(self.count)))
        await self.update()

    async def designate(self, value):
        self.tokens += 1
        self.token = self.tokens if value else None
        await self.update()

    async def update(self):
        if self.loop.time() < self.hold:
            if not self.waiting:
                self.waiting = asyncio.ensure_future(self._later())
            return
        info = self.component
        if not info:
            return
        sent = self.token, info.blessing_res.token
        if not self.sent or self.sent[-1][1:3] != sent:
            self.sent.append((self.loop.time(), *sent, next(self.count)))
        await self.server.update(1, [info._replace(
            mid=1, blessing_req=hat.monitor.common.BlessingReq(self.token,
                                                               None))])

    async def _later(self):
        while self.loop.time() < self.hold:
            await asyncio.sleep(self.hold - self.loop.time())
        self.waiting = None
        await self.update()

    def at(self, items, t):
        """Items valid at some time in t +- MARGIN"""
        result = []
        for i, item in enumerate(items):
            end = (items[i + 1][0] if i + 1 < len(items) else float('inf'))
            if item[0] <= t + MARGIN and end >= t - MARGIN:
                result.append(item[1:3])
        return result


class _Run:

    def __init__(self, case, ctx, loop):
        self.case = case
        self.ctx = ctx
        self.loop = loop
        self.quiet = loop.time()
        self.tasks = []
        self.counts = []  # of creations of engines
        self.resets = []  # (requested, processed or None)

    def busy(self, seconds):
        self.quiet = max(self.quiet, self.loop.time() + seconds)

    async def run(self):
        case = self.case
        self.monitor = monitor = _Monitor(self.loop)
        await monitor.start()
        pool = [{'by_source': False, 'subscriptions': [['*']]}]
        self.server = server = cluster.Server(
            1, {'module': 'hat.event.backends.lmdb', **lmdbm.backend_conf(
                pool, {'latest': [], 'parts': [[0, None]], 'conditions': []},
                self.ctx.tmp / 'db', flush_period=case['flush'])},
            modules=case['modules'], monitor=True,
            close_delay=case['close_delay'])
        server.on_starting = lambda _: self.counts.append(next(monitor.count))
        await monitor.designate(case['designated'])
        server.start()
        self.started = self.loop.time()
        self.conn = conn = cluster.Conn(server, 'client')
        await conn.connect_within(20)
        self.busy(5)
        for op, ms in case['ops']:
            await self.play(op)
            await net.pause(ms)
        await self.settle()
        working = self.engine() is not None
        end = self.loop.time()
        server.ending = True
        if case['end'] == 'stop':
            server.task.cancel()
        else:
            link = next(i for i in server.links
                        if i.port == cluster.MONITOR.port)
            if case['end'] == 'lost':
                link.cut(0, 0)
            else:
                for i in list(monitor.server._cid_conns.values()):
                    await i.send(chatter.Data('HatObserver.MsgClose', b''))
        limit = case['close_delay'] / 1000 + 3
        await server.finished(limit)
        await sim.within(100, conn.client.async_close(), 'closing')
        for i in server.modules:
            check(i.span[1] is not None, 'module is not closed')
        self.timeline(end)
        if working:
            self.ctx.label('ended while working')
        # everything is stored
        await self.stored(conn, limit)
        await sim.within(100, monitor.server.async_close(), 'closing')
        if monitor.waiting:
            monitor.waiting.cancel()
        await asyncio.sleep(10)
        check(not self.loop.errors, 'unhandled errors %r', self.loop.errors)

    def engine(self):
        live = [i for i in self.server.modules if i.span[1] is None]
        return min((i.span[0] for i in live), default=None)

    async def play(self, op):
        case = self.case
        if op[0] == 'designate':
            await self.monitor.designate(op[1])
            self.busy(case['close_delay'] / 1000 + 3)

        elif op[0] == 'hold':
            self.monitor.hold = self.loop.time() + op[1]
            self.busy(op[1])
            self.busy(max(self.quiet - self.loop.time(), op[1] + 8 +
                          case['close_delay'] / 1000))

        elif op[0] == 'module':
            task = asyncio.ensure_future(self.command(op[1]))
            self.tasks.append(task)
            if op[2]:
                await sim.within(100, asyncio.wait([task]), 'command')
            self.busy(case['close_delay'] / 1000 * 2 + TIMEOUT + 10)

        elif op[0] == 'settle':
            await self.settle()

    async def command(self, name):
        started = self.loop.time()
        live = self.engine() is not None
        kind, result = await sim.outcome(self.conn.client.register([
            common.RegisterEvent(('m', name), None, None)], True))
        done = kind == 'ok' and result is not None
        if name == 'reset' and (live or done or self.engine() is not None):
            self.resets.append((started, self.loop.time() if done else None))

    async def settle(self):
        await asyncio.sleep(max(0, self.quiet - self.loop.time(),
                                self.monitor.hold + 8 - self.loop.time()))
        if self.tasks:
            await sim.within(200, asyncio.wait(self.tasks), 'requests')
            for task in self.tasks:
                task.result()
            self.tasks.clear()
        await asyncio.sleep(5 + self.case['close_delay'] / 1000)
        monitor = self.monitor
        check(self.server.alive, 'server is stopped')
        check(monitor.reports and monitor.reports[-1][2], 'server not ready')
        # not confirmed designation may stay reported
        check(monitor.token in (None, monitor.reports[-1][1]),
              'server reports %r, designation is %r', monitor.reports[-1],
              monitor.token)
        status = (common.Status.STANDBY if monitor.token is None
                  else common.Status.OPERATIONAL)
        check(self.conn.client.status == status, 'status is %s instead of %s',
              self.conn.client.status, status)
        check((self.engine() is not None) == (monitor.token is not None),
              'engine of server')
        self.ctx.label('settled')

    def timeline(self, end):
        monitor = self.monitor
        reports = [i for i in monitor.reports if i[0] <= end]
        ready = [i for i in reports if i[2]]
        check(ready and ready[0][0] <= self.started + MARGIN,
              'server is not ready at start')
        falls = []
        for a, b in zip(reports, reports[1:]):
            if a[2] and not b[2]:
                falls.append((b[0], b[3]))
            if b[1] is not None and b[1] != a[1]:
                check(b[2], 'designation accepted while not ready')
                check(b[1] in [i[1] for i in monitor.sent if i[3] < b[3]],
                      'not existing designation %r accepted', b)
        used = 0
        for t, n in falls:
            self.ctx.label('not ready')
            used += 1
            # because of request
            check(any(t0 <= t and (t1 is None or t <= t1 + MARGIN)
                      for t0, t1 in self.resets),
                  'server not ready without request at %s (%s)', t,
                  self.resets)
            after = next((i[0] for i in reports if i[3] > n and i[2]), None)
            released = next((i[0] for i in monitor.sent
                             if i[3] > n and i[2] is None), None)
            due = min([t + TIMEOUT] + ([released] if released is not None
                                       else []))
            if due == t + TIMEOUT:
                self.ctx.label('not released in time')
            if after is None:
                check(due > end - MARGIN, 'server not ready any more')
            else:
                margin = MARGIN if due == t + TIMEOUT else 0.01
                check(due - margin <= after <= due + MARGIN,
                      'not ready at %s, ready again at %s instead of %s', t,
                      after, due)
        for t0, t1 in self.resets:
            if t1 is None or t1 + MARGIN > end:
                continue
            if not all(i[1] for i in monitor.at(reports, t0)):
                continue
            check(any(t0 <= t <= t1 + MARGIN for t, _ in falls),
                  'server ready in spite of request at %s', t0)

        # engines
        starts = {}
        for i in self.server.modules:
            starts.setdefault(id(i.engine), i.span[0])
        counts = dict(zip(starts, self.counts))
        for start in starts.values():
            check(any(r is not None and r == c
                      for r, c in monitor.at(monitor.sent, start)),
                  'engine started without confirmed designation at %s', start)
            check(any(i[1] for i in monitor.at(reports, start)),
                  'engine started while server is not ready at %s', start)
        delay = (self.case['close_delay'] +
                 sum(self.case['modules'])) / 1000 + MARGIN
        for i in self.server.modules:
            count = counts[id(i.engine)]
            changes = [t for t, n in falls if n > count]
            token = None
            for t, req, res, _ in monitor.sent:
                if t <= i.span[0] - MARGIN:
                    token = req
                elif t > i.span[0] + MARGIN and req != token:
                    if token is not None:
                        changes.append(t)
                    token = req
                else:
                    token = req
            change = min(changes, default=None)
            check(change is None or i.span[1] <= change + delay,
                  'engine started at %s is working until %s, '
                  'designation ended at %s', i.span[0], i.span[1], change)
        self.ctx.nontrivial = used > 0 and len(starts) > 1

    async def stored(self, conn, limit):
        got = list(conn.got)
        server = self.server
        for i in server.modules:
            i.span[1] = self.loop.time()
        server.start()
        self.conn = other = cluster.Conn(server, 'other')
        await other.connect_within(20)
        result = await sim.within(20, other.client.query(
            common.QueryServerParams(1, False, None, None)), 'query')
        events, more = gen.result_of(result)
        while more:
            result = await sim.within(20, other.client.query(
                common.QueryServerParams(1, False, None, events[-1].id)),
                'query')
            page, more = gen.result_of(result)
            events.extend(page)
        stored = {i.id: i for i in events}
        for i in got:
            check(gen.same(stored.get(i.id), i), 'event %r is not stored', i)
        engines = [i.payload.data for i in events
                   if i.type == ('event', '1', 'engine')]
        check(engines[:-1] == ['STARTED', 'STOPPED'] * (len(engines) // 2)
              or engines == ['STARTED', 'STOPPED'] * (len(engines) // 2) or
              engines[-1] == 'STARTED' and
              engines[:-1] == ['STARTED', 'STOPPED'] * (len(engines) // 2),
              'events of engines %r', engines)
        server.ending = True
        server.task.cancel()
        await server.finished(limit)
        await sim.within(100, other.client.async_close(), 'closing')


def run(case, ctx):
    async def main(loop):
        net.track(loop)
        await _Run(case, ctx, loop).run()

    sim.run(main, {'net': case['net'], **case['sim']})


SUBS = [
    Sub('designation', strategy, run, 1600, 40000,
        'cases with a server giving up designation and more engines')]
