"""Reporting of synchronisation progress"""
TECHNIQUE = ('stateful property-based testing with a simulated network: '
             'generated remote histories, page limits, status changes and '
             'connection losses against the documented sequence of synced '
             'events')
NOTE = ('Remote store and local backend are scripted stand-ins. A change to '
        'operational sent before CONNECTED was received by the remote may '
        'or may not repeat it.')

from hypothesis import strategies as st

import asyncio

from hypothesis import strategies as st

from checks import c25, c33
from vlib import cluster, gen, sim, syncer
from vlib.core import Sub, check

from hat.event import common

STATES = ['CONNECTED', 'SYNCING', 'SYNCED']


def strategy():
    return st.booleans().flatmap(syncer.case)


def run(case, ctx):
    def verify(conn, complete):
        _verify(conn, complete, ctx)

    _, conns = syncer.execute(case, ctx, verify)
    ctx.nontrivial = max(len(i.log) for i in conns) > 3


def _verify(conn, complete, ctx):
    expected = [{'state': 'CONNECTED'}]
    if conn.queries and conn.queries[0]:
        expected.append({'state': 'SYNCING'})
    expected.append({'state': 'SYNCED', 'count': conn.count})

    # split to progress and repetition
    progress = []
    repeated = []
    for data, obtained in zip(conn.log, conn.obtained):
        check(isinstance(data, dict) and data.get('state') in STATES and
              set(data) == ({'state', 'count'} if data['state'] == 'SYNCED'
                            else {'state'}), 'synced event %r', data)
        last = progress[-1] if progress else None
        if last and last['state'] == data['state']:
            check(data.get('count') is None, 'more than one SYNCED: %r',
                  conn.log)
            repeated.append(data)
            continue
        check(len(progress) < len(expected) and
              data == expected[len(progress)] and
              not isinstance(data.get('count'), bool),
              'synced events %r, expected %r', conn.log, expected)
        if data['state'] == 'SYNCED':
            check(obtained == conn.count, 'SYNCED before last query')
        if data['state'] == 'CONNECTED':
            check(not obtained, 'CONNECTED after query')
        progress.append(data)
    if complete:
        check(progress == expected, 'synced events %r, expected %r',
              conn.log, expected)

    high = len(conn.operational)
    low = sum(1 for _, length in conn.operational if length)
    check(len(repeated) <= high, 'synced events %r repeated %s times with %s '
          'changes to operational', conn.log, len(repeated), high)
    if complete:
        check(low <= len(repeated), 'synced events %r repeated %s times with '
              '%s changes to operational', conn.log, len(repeated), low)
    ctx.label('repeated', len(repeated))

    # callback
    local = [(i['state'], i.get('count')) for i in expected]
    got = [i[:2] for i in conn.synced]
    check(got == (local if complete else local[:len(got)]),
          'synced callback called with %r, expected %r', got, local)


def peers_run(case, ctx):
    c25.run(case, ctx, synced_only=True)


def _timestamp(seconds):
    us = round(seconds * 1_000_000)
    return common.Timestamp(us // 1_000_000, us % 1_000_000)


class _Node(c33._Node):
    operational = None
    exact = False

    async def start(self):
        self.operational = None
        await super().start()
        # time of change that was not seen is only limited
        if (self.operational is None and self.witness.state == 'connected' and
                self.witness.client.status == common.Status.OPERATIONAL):
            self.operational = self.run.loop.time()
            self.exact = False

    def on_starting(self, server):
        pass

    async def on_status(self, conn, status):
        if conn is self.witness:
            self.exact = True
            self.operational = (self.run.loop.time()
                                if status == common.Status.OPERATIONAL
                                else None)

    async def synced(self, server_id, since):
        """Registered by this server and stored"""
        events = []
        more = True
        while more:
            result = await self.witness.client.query(common.QueryServerParams(
                self.server.id, False, None, events[-1].id if events else None))
            page, more = gen.result_of(result)
            check(page or not more, 'more events after empty page')
            events.extend(page)
        return {
            (i, j): [e.payload.data for e in events
                     if e.type == ('event', str(i), 'synced', str(j)) and
                     e.timestamp >= since]
            for i, j in [(self.server.id, server_id),
                         (server_id, self.server.id)]}


class _Run(c33._Run):
    """Complete servers, only synced events are verified"""
    Node = _Node
    verified = 0

    def notified(self, conn):
        pass

    async def register(self, node, specs, with_response):
        if node.witness.state == 'connected':
            await sim.outcome(node.witness.client.register(
                [common.RegisterEvent(tuple(i['type']), None, None)
                 for i in specs], with_response))

    async def settle(self):
        await asyncio.sleep(max(0, self.quiet - self.loop.time()) + 1)
        node = self.designated
        if (not node or not node.alive or node.operational is None or
                node.witness.state != 'connected'):
            return
        for other in self.nodes:
            if other is node or not other.alive:
                continue
            if other.healthy(node, c33.SYNCED):
                await self.verify(node, other, other, node)
            if node.healthy(other, c33.SYNCED):
                await self.verify(node, other, node, other)

    async def verify(self, node, other, client, server):
        link = [i for i in client.server.links
                if i.port == server.server.addr.port][-1]
        # connected when engine was already working
        whole = link.born > node.operational + 1
        since = link.born - 0.01 if whole else node.operational - 1
        ids = client.server.id, server.server.id
        events = (await sim.within(20, node.synced(
            other.server.id, _timestamp(self.loop.epoch + since)),
            'query'))[ids]
        what = (f'synced events of connection of server {ids[0]} to '
                f'{ids[1]} on server {node.server.id}')
        if whole:
            count = events[-1].get('count') if events else None
            expected = [{'state': 'CONNECTED'},
                        *([{'state': 'SYNCING'}] if count else []),
                        {'state': 'SYNCED', 'count': count}]
            check(events == expected and type(count) is int, '%s are %r',
                  what, events)
            self.verified += 1
            self.ctx.label('local' if client is node else 'remote')
        elif client is other and node.exact:
            check(events and events[-1]['state'] == 'SYNCED', '%s are %r',
                  what, events)
            self.verified += 1
            self.ctx.label('became operational')


def servers_run(case, ctx):
    result = c33.run(case, ctx, _Run)
    ctx.nontrivial = result.verified > 1


@st.composite
def servers_strategy(draw):
    case = draw(c33.strategy())
    if draw(st.booleans()):
        # one that was stopped returns
        case['ops'] += [[['settle'], 0], [['stop', draw(c33._server)], 9000],
                        [['designate', draw(c33._server)], 9000]]
    return case


SUBS = [
    Sub('servers', servers_strategy, servers_run, 160, 6000,
        'cases with more verified connections of complete servers'),
    Sub('peers', c25.strategy, peers_run, 1200, 24000,
        'cases with reporting of an undisturbed connection verified'),
    Sub('progress', strategy, run, 2000, 60000,
        'cases with more than three synced events of a connection')]
