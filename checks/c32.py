"""Complete server"""
TECHNIQUE = ('stateful property-based testing of complete servers over a '
             'simulated network and real databases: generated configurations, '
             'client activity, misbehaving clients, failures of parts and '
             'restarts against a reference model of stored events')
NOTE = ('Whole server process is run in virtual time and compared with the '
        'model at moments when everything is flushed and after each stop. '
        'Notifications in transit while server is stopping can be lost. '
        'Retention limits are not configured here (see C13 and C14).')

import asyncio

from hypothesis import strategies as st

from checks import c31
from vlib import cluster, gen, lmdbm, model, net, peer, sim
from vlib.core import Sub, check

from hat.event import adminer
from hat.event import common
from hat.event import eventer
from hat.event.backends.lmdb import info as lmdb_info

ID = 1
SILENT = 45

_type = gen.weighted((8, lmdbm.types), (1, st.sampled_from(
    [['m'], ['m', 'x'], ['x', 'č', '']])))

_event = st.fixed_dictionaries({
    'type': _type, 'st': lmdbm.source_ts,
    'payload': gen.one_of(lmdbm.payload, lmdbm.payload, gen.payload)})

_events = st.lists(_event, min_size=1, max_size=4)

_client = st.fixed_dictionaries({
    'subs': gen.one_of(st.just([['*']]), lmdbm.query_types),
    'server': st.sampled_from([None, None, ID, 2]),
    'persisted': st.booleans()})

_index = st.integers(0, 2)

_server_query = st.tuples(st.booleans(), st.none() | st.integers(1, 6),
                          st.none() | st.integers(0, 30))

_queries = st.lists(gen.one_of(
    st.tuples(st.just('latest'),
              st.none() | st.lists(lmdbm.query_type, max_size=3)),
    st.tuples(st.just('ts'), lmdbm.ts_query),
    st.tuples(st.just('ts'), lmdbm.ts_query),
    st.tuples(st.just('server'), _server_query)), max_size=4)

_settle = st.tuples(st.just('settle'), _queries)

_break = gen.one_of(
    st.tuples(st.just('close')), st.tuples(st.just('close')),
    st.tuples(st.just('cut'), net.delay, net.delay),
    st.tuples(st.just('cut'), net.delay, net.delay),
    st.tuples(st.just('blackhole')))


def _op(monitor):
    ops = [
        (10, st.tuples(st.just('register'), _index, _events,
                       st.sampled_from([True, True, True, False]),
                       st.booleans())),
        (4, st.tuples(st.just('connect'), _index)),
        (4, st.tuples(st.just('break'), _index, _break)),
        (3, _settle),
        (1, st.tuples(st.just('attack'), c31._first, c31._request,
                      st.booleans(), c31._mutation)),
        (1, st.tuples(st.just('module'), st.sampled_from(
            ['restart', 'restart', 'restart', 'reset', 'fail', 'close']))),
        (1, st.tuples(st.just('part'), st.sampled_from(
            ['backend', 'eventer', 'adminer', 'adminer']))),
        (1, st.tuples(st.just('adminer')))]
    if monitor:
        ops += [(1, st.tuples(st.just('designate'), st.booleans())),
                (1, st.tuples(st.just('monitor cut')))]
    return gen.weighted(*ops)


_pause = gen.timing([0, 0, 0, -1, -2, -5, 1, 5, 50, 1000, 4000])


@st.composite
def strategy(draw):
    memory = draw(st.sampled_from([False] * 7 + [True]))
    pool, confs = draw(lmdbm.pool_and_confs(
        conditions=lmdbm.simple_conditions))
    # identifiers of events can be used again if session is not stored
    confs[0]['latest'] = [*confs[0]['latest'], ['event', '*']]
    for i in confs[0]['conditions']:
        if i['subscriptions'] == [['*']]:
            i['subscriptions'] = [['a', '*'], ['b', '*']]
    monitor = draw(st.sampled_from([False, False, True]))
    step = st.tuples(_op(monitor), _pause)
    steps = gen.one_of(st.lists(step, max_size=6),
                       st.lists(step, min_size=5, max_size=14))
    return {
        'memory': memory, 'pool': pool, 'conf': confs[0],
        'monitor': monitor,
        'flush': draw(st.sampled_from([3, 3, 10])),
        'cleanup': draw(st.sampled_from([2, lmdbm.NO_PERIOD])),
        'modules': draw(st.lists(gen.timing([0, 0, 3, -2]),
                                 max_size=2)),
        'close_delay': draw(st.sampled_from([0, 0, 20, 2000])),
        'adminer': draw(st.booleans()),
        'token': draw(st.sampled_from([None, 'good', 'x'])),
        'clients': draw(st.lists(_client, min_size=3, max_size=3)),
        'net': draw(net.conf), 'sim': draw(lmdbm.sim_conf),
        'runs': draw(st.lists(steps, min_size=1, max_size=3))}


class _State:

    def __init__(self, case, ctx):
        self.case = case
        self.ctx = ctx
        self.model = None if case['memory'] else lmdbm.Model(case['pool'])
        self.log = cluster.Log()
        self.without_backend = False
        self.fed = {}  # reasons of events applied to model

    def feed(self):
        """Apply new events to model"""
        cluster.ascending(self.log.of(ID), 'all events')
        if not self.model:
            return
        for event in self.log.of(ID):
            if event.id in self.fed:
                continue
            reason = self.model.register(event)
            check(reason not in ('id', 'timestamp'),
                  'event %r has invalid %s', event, reason)
            self.fed[event.id] = reason
            self.ctx.label(f'event {reason or "stored"}')

    def forget(self):
        """Identifiers of sessions which are not stored are used again"""
        last = self.model.last_event_id(ID)
        for event_id in [i for i in self.log.events
                         if i.server == ID and i.session > last.session]:
            self.log.events.pop(event_id)
            self.fed.pop(event_id)

    def covered(self, event):
        """Event will always be available"""
        return (not self.model or
                self.model.holds(event) and any(self.model.parts_of(event)))

    def driver(self, backend):
        driver = lmdbm.Driver(self.case['pool'], [self.case['conf']], None)
        driver.model = self.model
        driver.backend = backend
        driver.events = self.log.of(ID)
        return driver


def run(case, ctx):
    async def main(loop):
        net.track(loop)
        state = _State(case, ctx)
        monitor = cluster.Monitor()
        if case['monitor']:
            await monitor.start()
        if case['memory']:
            conf = {'module': 'hat.event.backends.memory'}
        else:
            conf = {'module': 'hat.event.backends.lmdb',
                    **lmdbm.backend_conf(
                        case['pool'], case['conf'], ctx.tmp / 'db',
                        flush_period=case['flush'],
                        cleanup_period=case['cleanup'])}
            state.model.open(case['conf'])
        server = cluster.Server(
            ID, conf, modules=case['modules'], monitor=case['monitor'],
            adminer=case['adminer'], token=case['token'],
            close_delay=case['close_delay'])
        for index, ops in enumerate(case['runs']):
            await _Run(state, server, monitor, loop).run(index, ops)
        if case['monitor']:
            await sim.within(100, monitor.server.async_close(), 'closing')
        await asyncio.sleep(10)
        check(not loop.errors, 'unhandled errors %r', loop.errors)

    sim.run(main, {'net': case['net'], **case['sim']})


class _Run:
    """Single run of the server"""

    def __init__(self, state, server, monitor, loop):
        self.state = state
        self.case = state.case
        self.ctx = state.ctx
        self.server = server
        self.monitor = monitor
        self.loop = loop
        self.conns = []
        self.current = {}
        self.attackers = []
        self.tasks = []
        self.quiet = loop.time()
        self.designated = True
        self.certain = True
        self.without_backend = False
        self.settled = 0
        self.announced = False
        self.acked = []

    def busy(self, seconds):
        self.quiet = max(self.quiet, self.loop.time() + seconds)

    async def run(self, index, ops):
        if self.case['monitor']:
            await self.monitor.designate(self.server.name)
        if self.case['memory']:
            self.state.log = cluster.Log()
        self.server.start()
        self.persisted = cluster.Conn(self.server, 'persisted',
                                      persisted=True)
        await self.persisted.connect_within(20)
        self.witness = cluster.Conn(self.server, 'witness')
        await self.witness.connect_within(20)
        self.busy(2)

        for op, ms in ops:
            if self.server.ending:
                break
            await self.play(op)
            await net.pause(ms)

        if not self.server.ending and index + 1 == len(self.case['runs']):
            await self.settle([])
        if not self.server.ending:
            check(self.server.alive, 'server stopped by itself')
            self.announced = (self.operational() and
                              self.loop.time() >= self.quiet and
                              self.case['modules'] and
                              self.case['close_delay'] > 1000)
            await self.server.stop()
        else:
            self.ctx.label('failed part')
            if not self.certain:
                # engine could have been closed before that
                await asyncio.sleep(5)
                self.server.task.cancel()
            await self.server.finished()
        await self.finish()

    async def play(self, op):
        if op[0] == 'register':
            task = asyncio.ensure_future(self.register(*op[1:4]))
            self.tasks.append(task)
            if op[4]:
                await sim.within(100, asyncio.wait([task]), 'register')

        elif op[0] == 'connect':
            await self.connect(op[1])

        elif op[0] == 'break':
            conn = self.current.get(op[1])
            if conn and conn.state == 'connected':
                conn.lost()
                self.ctx.label(f'connection {op[2][0]}')
                if op[2][0] == 'close':
                    self.tasks.append(asyncio.ensure_future(
                        conn.client.async_close()))
                else:
                    net.break_link(conn.link, [op[2][0], 0, *op[2][1:]])
                self.busy(SILENT if op[2][0] == 'blackhole' else 2)

        elif op[0] == 'settle':
            await self.settle(op[1])

        elif op[0] == 'attack':
            await self.attack(*op[1:])

        elif op[0] == 'module':
            if op[1] in ('fail', 'close') and self.case['modules']:
                if not self.operational():
                    return
                self.server.ending = True
                self.certain = self.loop.time() >= self.quiet
            self.tasks.append(asyncio.ensure_future(
                sim.outcome(self.witness.client.register([
                    common.RegisterEvent(('m', op[1]), None, None)]))))
            self.busy(self.case['close_delay'] / 1000 + 2)
            if op[1] == 'reset' and self.case['monitor']:
                self.busy(40)
            if self.server.ending:
                # it has to be noticed
                await asyncio.sleep(5)

        elif op[0] == 'adminer':
            if self.case['adminer']:
                self.tasks.append(asyncio.ensure_future(self.adminer()))

        elif op[0] == 'part':
            if self.server.fail(op[1]):
                self.ctx.label(f'failed {op[1]}')
                self.without_backend |= op[1] == 'backend'
                self.state.without_backend |= self.without_backend

        elif op[0] == 'designate':
            self.designated = op[1]
            await self.monitor.designate(self.server.name if op[1] else None)
            self.busy(self.case['close_delay'] / 1000 + 2)

        elif op[0] == 'monitor cut':
            links = [i for i in self.server.links
                     if i.port == cluster.MONITOR.port]
            self.server.ending = True
            links[-1].cut(0, 0)

    def operational(self):
        return self.witness.client.status == common.Status.OPERATIONAL

    async def connect(self, index):
        conn = self.current.get(index)
        if conn and conn.state != 'lost':
            return
        spec = self.case['clients'][index]
        conn = cluster.Conn(
            self.server, f'client{index}', subs=spec['subs'],
            server_id=spec['server'], persisted=spec['persisted'])
        conn.number = len(self.conns)
        self.current[index] = conn
        self.conns.append(conn)
        kind, e = await sim.outcome(sim.within(50, conn.connect(),
                                               'connect'))
        check(kind == 'ok' or self.server.ending, 'connecting failed: %r', e)
        conn.since = self.settled
        conn.start = self.loop.time()

    async def register(self, index, specs, with_response):
        conn = self.current.get(index)
        if conn is None or conn.state == 'lost':
            conn = self.witness
        if conn.state != 'connected':
            return
        client = conn.client
        events = [common.RegisterEvent(
            tuple(i['type']), gen.to_ts(i['st']), gen.to_payload(i['payload']))
            for i in specs]
        start = self.loop.time()
        kind, result = await sim.outcome(client.register(events,
                                                         with_response))
        if kind == 'error':
            check(not conn.alive, 'registration failed: %r', result)
            return
        if not with_response or result is None:
            check(result is None, 'registration result %r', result)
            return
        result = gen.events_of(result, 'registration result')
        check(len(result) == len(events) and all(
            gen.same(r, common.Event(r.id, e.type, r.timestamp,
                                     e.source_timestamp, e.payload)) and
            r.id == result[0].id._replace(
                instance=result[0].id.instance + i) and
            r.id.server == ID and r.timestamp == result[0].timestamp
            for i, (r, e) in enumerate(zip(result, events))),
            'registration of %r ended with %r', events, result)
        self.state.log.add(result, 'registration result')
        self.acked.append((start, result))
        self.ctx.label('acknowledged')

        # visible from now on
        first = result[0].id
        kind, value = await sim.outcome(client.query(common.QueryServerParams(
            ID, False, None, first._replace(instance=first.instance - 1))))
        if kind == 'error':
            check(not conn.alive, 'query failed: %r', value)
            return
        visible = {i.id: i for i in gen.result_of(value)[0]}
        if len(visible) < 4096:
            for event in result:
                check(not self.state.covered(event) or
                      gen.same(visible.get(event.id), event),
                      'acknowledged event %r is not visible', event)

    async def attack(self, first, request, last, mutation):
        name = f'attacker{len(self.attackers)}'
        attacker = peer.Peer()
        net.connecting.set(attacker)
        await attacker.connect(self.server.addr)
        self.attackers.append(attacker)
        if first[1][0] == 'init':
            # accepted without a token
            init = list(first[1])
            if init[1] == 'good':
                init[1] = None
            first = [first[0], init, first[2]]
        msg_type, data = c31._request_sbs(first[1], name)
        await attacker.send(None, False, msg_type, data, first[2])
        msg_type, data = c31._request_sbs(request, name)
        await attacker.send(None, last, msg_type, data, mutation)

    async def adminer(self):
        # configuration of logging is not set
        net.connecting.set(None)
        kind, client = await sim.outcome(adminer.connect(cluster.ADMINER))
        if kind == 'ok':
            kind, value = await sim.outcome(client.get_log_conf())
            if kind == 'ok':
                check(value is None, 'logging configuration %r', value)
            await client.async_close()
        check(kind == 'ok' or self.server.ending, 'adminer failed')

    async def settle(self, queries):
        """Compare everything when nothing happens"""
        for attacker in self.attackers:
            attacker.link.cut(0, 0)
        self.attackers.clear()
        if self.tasks:
            self.busy(1)
            await sim.within(200, asyncio.wait(self.tasks), 'requests')
            for task in self.tasks:
                task.result()
            self.tasks.clear()
        self.busy(self.case['flush'] + 2)
        await asyncio.sleep(self.quiet - self.loop.time())
        if self.server.ending:
            return
        check(self.server.alive and self.witness.client.is_open and
              self.persisted.client.is_open, 'server is closed')
        status = (common.Status.OPERATIONAL if self.designated
                  else common.Status.STANDBY)
        for conn in [self.witness, self.persisted, *self.conns]:
            if conn.state == 'connected':
                check(conn.client.is_open and conn.client.status == status,
                      'status of %s is %s', conn.name, conn.client.status)
                check(conn.statuses[-1] == status, 'last status')

        if self.designated:
            result = await sim.within(20, self.witness.client.register(
                [common.RegisterEvent(('a', ), None, None)], True),
                'registration')
            check(result is not None, 'registration failed')
            self.state.log.add(result, 'registration result')
            await asyncio.sleep(self.case['flush'] + 2)

        # everything is notified
        self.notified()
        events = self.witness.got
        check(gen.same(events, self.persisted.got[-len(events):]
                       if events else []),
              'persisted %r, registered %r', self.persisted.got, events)
        first = self.persisted.got[:1]
        if first and not self.case['monitor'] and not self.case['memory']:
            check(first[0].type == ('event', str(ID), 'engine') and
                  first[0].payload.data == 'STARTED', 'first event %r',
                  first[0])
        ids = {i.id for i in events}
        for _, acked in self.acked:
            check(all(i.id in ids for i in acked),
                  'acknowledged %r are not notified', acked)
        for conn in self.conns:
            self.verify_conn(conn, complete=conn.state == 'connected')
        self.settled = len(events)

        # everything is visible
        self.state.feed()
        if self.case['memory']:
            result = await sim.within(
                20, self.witness.client.query(common.QueryServerParams(
                    ID, False, None, None)), 'query')
            events, _ = gen.result_of(result)
            known = self.state.log.of(ID)
            check(gen.same(events[-len(known):] if known else [], known),
                  'stored %r, expected %r', events, known)
            return
        self.state.model.flush()
        driver = self.state.driver(self.witness.client)
        await driver.check_latest(None)
        for by_source in (False, True):
            await driver.check_timeseries({**lmdbm.full_query,
                                           'by_source': by_source})
        for persisted in (False, True):
            await driver.check_server(ID, persisted, None, None)
        for query in queries:
            if query[0] == 'latest':
                await driver.check_latest(query[1])
            elif query[0] == 'ts':
                await driver.check_timeseries(query[1])
            else:
                persisted, limit, last = query[1]
                if last is not None and driver.events:
                    last = driver.events[last % len(driver.events)].id
                else:
                    last = None
                await driver.check_server(ID, persisted, limit, last)
        self.ctx.label('settled')

    def notified(self):
        for conn in (self.witness, self.persisted):
            cluster.ascending(conn.got, conn.name)
            self.state.log.add(conn.got, conn.name)

    def verify_conn(self, conn, complete):
        source = self.persisted if conn.persisted else self.witness
        expected = [i for i in source.got
                    if model.any_matches(i.type, conn.subs) and
                    conn.server_id in (None, i.id.server)]
        what = f'{conn.name} ({conn.number})'
        if not conn.got:
            start = len(expected)
        else:
            ids = [i.id for i in expected]
            if conn.got[0].id not in ids:
                # notified to this client only while server is stopping or
                # before others were connected
                check(self.server.ending or expected and
                      conn.got[0].id < ids[0],
                      '%s: unexpected event %r', what, conn.got[0])
                return
            start = ids.index(conn.got[0].id)
        end = start + len(conn.got)
        check(gen.same(conn.got[:len(expected) - start],
                       expected[start:end]) and
              (self.server.ending or end <= len(expected)),
              '%s: notified %r, expected %r', what, conn.got,
              expected[start:end])
        if not complete:
            return
        check(end == len(expected), '%s: missing %r', what, expected[end:])
        if conn.persisted or not hasattr(conn, 'start'):
            return
        ids = {i.id for i in conn.got}
        for start, acked in self.acked:
            for event in acked:
                if (start > conn.start and
                        model.any_matches(event.type, conn.subs) and
                        conn.server_id in (None, ID)):
                    check(event.id in ids, '%s: not notified of %r', what,
                          event)

    async def finish(self):
        """After server is stopped"""
        for attacker in self.attackers:
            attacker.link.cut(0, 0)
        if self.tasks:
            await sim.within(200, asyncio.wait(self.tasks), 'requests')
            for task in self.tasks:
                task.result()
        for conn in [self.witness, self.persisted, *self.conns]:
            if conn.client:
                await sim.within(100, conn.client.async_close(), 'closing')
        self.notified()
        for conn in self.conns:
            self.verify_conn(conn, False)
        if self.announced:
            check(common.Status.STOPPING in self.witness.statuses[-2:],
                  'stopping is not announced, statuses %r',
                  self.witness.statuses)
            self.ctx.label('announced stop')
        if self.case['memory']:
            return

        # everything is stored
        driver = self.state.driver(None)
        path = self.ctx.tmp / 'db'
        driver.backend = await lmdb_info.create(
            lmdbm.backend_conf(self.case['pool'], self.case['conf'], path),
            None, None)
        events, more = await driver.query(common.QueryServerParams(
            ID, True, None, None), 'server query')
        check(not more, 'more events')
        before = len(self.state.log.events)
        known = self.state.log.of(ID)
        for event in events:
            if event.id in self.state.log.events or (
                    known and event.id > known[-1].id):
                continue
            # registered before anything is notified
            check(event.type[:1] == ('event', ) or not self.witness.got or
                  event.id < self.witness.got[0].id,
                  'stored event %r is not notified', event)
        self.state.log.add(events, 'stored event')
        self.ctx.label('events of stopping',
                       len(self.state.log.events) - before)
        self.state.feed()
        self.state.model.flush()
        self.state.model.open(self.case['conf'])
        driver.events = self.state.log.of(ID)
        last = common.Event(
            common.EventId(ID, 0, 0), ('event', str(ID), 'engine'),
            common.Timestamp(0, 0), None, common.EventPayloadJson('STOPPED'))
        if (driver.events and self.state.covered(last) and
                not self.without_backend):
            check(gen.same(
                (driver.events[-1].type, driver.events[-1].payload),
                (last.type, last.payload)),
                'last event %r', driver.events[-1])
        await lmdbm.check_everything(driver)
        await sim.within(100, driver.backend.async_close(), 'closing')
        if self.without_backend:
            self.state.forget()
        self.ctx.nontrivial |= len(self.acked) > 1
        self.ctx.label('verified stop')


SUBS = [
    Sub('server', strategy, run, 800, 30000,
        'cases with a verified run with more acknowledged registrations')]
__all__ = ['eventer']
