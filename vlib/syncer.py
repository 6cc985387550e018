"""Histories of synchronisation with a scripted remote server

Remote side is a real eventer server with scripted store; local backend is a
stand-in verifying each registered batch.

"""
import asyncio

from hypothesis import strategies as st

from vlib import gen, net, sim
from vlib.core import check

from hat import aio
from hat.event import common
from hat.event import eventer
from hat.event.server.eventer_client import SyncedState, create_eventer_client

LOCAL = 7
REMOTE = 9
OTHER = 11
SETTLE = 100

_sessions = st.lists(st.integers(1, 4), max_size=5)

# kinds of events, including those registered by servers
_content = st.sampled_from(['plain', 'engine', 'synced', 'local synced',
                            'eventer', 'empty', 'binary', 'same'])

_delay = gen.timing([0, 0, -1, -3, 1, 5, 50])


def case(faults):
    op = [(6, st.tuples(st.just('persist'), st.lists(
               st.integers(1, 4), min_size=1, max_size=3), st.booleans())),
          (4, st.tuples(st.just('status'), st.sampled_from(
              ['STANDBY', 'STARTING', 'OPERATIONAL', 'OPERATIONAL',
               'STOPPING']))),
          (2, st.tuples(st.just('settle')))]
    if faults:
        op += [(3, net.fault(st.just(0))),
               (4, st.tuples(st.just('connect'))),
               (1, st.tuples(st.just('local fail')))]
    step = st.tuples(gen.weighted(*op), net.delay)
    return st.fixed_dictionaries({
        'net': net.conf,
        'ids': st.sampled_from([[7, 9], [7, 9], [9, 7], [7, 0], [0, 9],
                                [7, 2**40]]),
        'content': st.lists(_content, max_size=4),
        'id_steps': st.sampled_from([[2, 1], [1, 1], [1, 2], [2**33, 1],
                                     [1, 2**40]]),
        'remote': gen.one_of(_sessions, st.lists(
            st.integers(1, 5), min_size=3, max_size=10)),
        'local': st.integers(0, 10),
        'pages': st.lists(st.sampled_from([1, 2, 3, 5, 1000]), max_size=3),
        'query_before': st.lists(_delay, max_size=3),
        'query_after': st.lists(_delay, max_size=3),
        'notify_delay': st.lists(_delay, max_size=3),
        'local_delay': st.lists(_delay, max_size=3),
        'cb_delay': st.lists(_delay, max_size=2),
        'late': st.booleans(),
        'status': st.sampled_from(['STANDBY', 'OPERATIONAL']),
        'ops': gen.one_of(st.lists(step, max_size=6),
                          st.lists(step, min_size=5, max_size=16))})


class _Remote:

    def __init__(self, case):
        self._pages = sim.Cyc(case['pages'], 1000)
        self._before = sim.Cyc(case['query_before'])
        self._after = sim.Cyc(case['query_after'])
        self._notify_delay = sim.Cyc(case['notify_delay'])
        self.sessions = []
        self.persisted = 0
        self.server = None
        self.status = common.Status[case['status']]
        self.conns = {}
        self._queue = aio.Queue()
        self.count = 0
        self._content = sim.Cyc(case.get('content', []), 'plain')
        # numbers of sessions have gaps
        self._id_steps = case.get('id_steps', [2, 1])

    def create_session(self, size):
        session = len(self.sessions) + 1
        events = [self._event(session, i) for i in range(size)]
        self.sessions.append(events)
        return events

    def _event(self, session, i):
        kind = self._content.next()
        steps = self._id_steps
        event = common.Event(
            id=common.EventId(REMOTE, session * steps[0], i * steps[1] + 1),
            type=('e', str(i)),
            timestamp=common.Timestamp(1000 + session, i),
            source_timestamp=None,
            payload=common.EventPayloadJson([session, i]))
        if kind == 'engine':
            return event._replace(
                type=('event', str(REMOTE), 'engine'),
                payload=common.EventPayloadJson('STARTED'))
        if kind == 'synced':
            return event._replace(
                type=('event', str(REMOTE), 'synced', str(LOCAL)),
                payload=common.EventPayloadJson({'state': 'CONNECTED'}))
        if kind == 'local synced':
            # registered by local server over its connection
            return event._replace(
                type=('event', str(LOCAL), 'synced', str(REMOTE)),
                payload=common.EventPayloadJson({'state': 'SYNCED',
                                                 'count': i}))
        if kind == 'eventer':
            return event._replace(
                type=('event', str(REMOTE), 'eventer', 'event/x'),
                payload=common.EventPayloadJson('CONNECTED'))
        if kind == 'empty':
            return event._replace(type=(), payload=None,
                                  timestamp=common.Timestamp(1000, 0))
        if kind == 'binary':
            return event._replace(
                source_timestamp=common.Timestamp(-i, 5),
                payload=common.EventPayloadBinary('t', b'\x00\xff'))
        if kind == 'same':
            return event._replace(type=('e', ), payload=None,
                                  timestamp=common.Timestamp(1000, 0))
        return event

    async def start(self):
        self.server = await eventer.listen(
            net.ADDR, status=self.status, register_cb=self._on_register,
            query_cb=self._on_query)
        self.server.async_group.spawn(self._persist_loop)

    def persist(self, sizes):
        for size in sizes:
            self._queue.put_nowait(self.create_session(size))

    async def persisted_all(self):
        while self.persisted < len(self.sessions):
            await asyncio.sleep(0.01)

    async def set_status(self, status):
        if status != self.status:
            self.status = status
            if status == common.Status.OPERATIONAL:
                now = asyncio.get_running_loop().time()
                for conn in self.conns.values():
                    conn.operational.append((now, len(conn.log)))
            await self.server.set_status(status)

    async def _persist_loop(self):
        async for events in self._queue:
            noise = [i._replace(id=i.id._replace(server=OTHER))
                     for i in events]
            await self.server.notify_events(events + noise, False)
            await net.pause(self._notify_delay.next())
            self.persisted += 1
            await net.pause(self._notify_delay.next())
            await self.server.notify_events(noise, True)
            await self.server.notify_events(events, True)

    def _on_register(self, info, events):
        conn = self.conns[info.client_name]
        events = list(events)
        check(len(events) == 1, 'registered events %r', events)
        event = events[0]
        check(isinstance(event, common.RegisterEvent) and
              event.type == ('event', str(LOCAL), 'synced', str(REMOTE)) and
              event.source_timestamp is None and
              isinstance(event.payload, common.EventPayloadJson),
              'registered event %r', event)
        conn.log.append(event.payload.data)
        conn.obtained.append(conn.count)
        return None

    async def _on_query(self, info, params):
        conn = self.conns[info.client_name]
        check(isinstance(params, common.QueryServerParams) and
              params.server_id == REMOTE, 'query %r', params)
        await net.pause(self._before.next())
        sessions = (self.sessions[:self.persisted] if params.persisted
                    else self.sessions)
        events = [i for j in sessions for i in j
                  if params.last_event_id is None or
                  i.id > params.last_event_id]
        page = self._pages.next()
        if params.max_results is not None:
            page = min(page, params.max_results)
        result = common.QueryResult(events[:page], len(events) > page)
        conn.queries.append(len(result.events))
        conn.count += len(result.events)
        await net.pause(self._after.next())
        return result


class _Local(aio.Resource):

    def __init__(self, case, remote, sessions):
        self._group = aio.Group()
        self._remote = remote
        self._delay = sim.Cyc(case['local_delay'])
        self._late = case['late']
        self.stored = sessions
        self.pending = 0
        self.fail = False
        self.registered = 0

    @property
    def async_group(self):
        return self._group

    async def get_last_event_id(self, server_id):
        check(server_id == REMOTE, 'last event id of %r', server_id)
        count = self.stored
        await net.pause(self._delay.next())
        if not count:
            return common.EventId(REMOTE, 0, 0)
        return self._remote.sessions[count - 1][-1].id

    async def register(self, events):
        events = gen.events_of(events, 'registration')
        index = self.stored + self.pending
        remote = self._remote
        check(index < remote.persisted,
              'registered %r, everything persisted is already registered',
              events)
        check(gen.same(events, remote.sessions[index]),
              'registered %r, expected session %r', events,
              remote.sessions[index])
        if self.fail:
            self.fail = False
            raise Exception('injected')
        self.registered += 1
        if not self._late:
            self.stored += 1
        self.pending += self._late
        try:
            await net.pause(self._delay.next())
            if self._late:
                self.stored += 1
        finally:
            self.pending -= self._late
        return events

    async def query(self, params):
        raise NotImplementedError()

    async def flush(self):
        pass


class Conn:
    """Single connection to remote server"""

    def __init__(self, name):
        self.name = name
        self.link = None
        self.client = None
        self.log = []  # registered synced events
        self.obtained = []  # number of events of queries at that moment
        self.queries = []
        self.count = 0
        self.operational = []  # [time, length of log]
        self.synced = []  # callback calls
        self.statuses = []
        self.lost = False


def execute(case, ctx, verify):
    """Run history, `verify(conn, complete)` is called for each connection"""
    global LOCAL, REMOTE
    LOCAL, REMOTE = case.get('ids', [7, 9])

    async def main(loop):
        net.track(loop)
        remote = _Remote(case)
        for size in case['remote']:
            remote.create_session(size)
        remote.persisted = len(remote.sessions)
        local = _Local(case, remote, min(case['local'],
                                         len(remote.sessions)))
        await remote.start()
        cb_delay = sim.Cyc(case['cb_delay'])
        conns = []
        tasks = []

        async def connect():
            if conns:
                conn = conns[-1]
                if not conn.lost and (not conn.client or
                                      conn.client.is_open):
                    return
                if conn.client:
                    await sim.within(200, conn.client.async_close(),
                                     'closing of client')
                conn.lost = True
            conn = Conn(f'conn{len(conns)}')
            conns.append(conn)
            remote.conns[conn.name] = conn
            net.connecting.set(conn)

            async def synced_cb(state, count):
                check(isinstance(state, SyncedState), 'state %r', state)
                conn.synced.append((state.name, count, local.stored))
                if conn.client is not None:
                    check(conn.client.synced == state, 'synced property %r',
                          conn.client.synced)
                await net.pause(cb_delay.next())

            async def status_cb(status):
                conn.statuses.append(status)
                await net.pause(cb_delay.next())

            kind, value = await sim.outcome(sim.within(
                200, create_eventer_client(
                    addr=net.ADDR, client_name=conn.name,
                    local_server_id=LOCAL, remote_server_id=REMOTE,
                    backend=local, status_cb=status_cb,
                    synced_cb=synced_cb), 'connect'))
            if kind == 'error':
                raise value
            conn.client = value

        await connect()
        for op, ms in case['ops']:
            conn = conns[-1]
            if op[0] == 'persist':
                remote.persist(op[1])
                if op[2]:
                    await sim.within(100, remote.persisted_all(), 'persist')

            elif op[0] == 'status':
                await remote.set_status(common.Status[op[1]])

            elif op[0] == 'settle':
                await asyncio.sleep(5)

            elif op[0] == 'connect':
                await connect()

            elif op[0] == 'local fail':
                local.fail = True

            elif not conn.lost:
                conn.lost = True
                ctx.label(f'connection {op[0]}')
                if op[0] == 'close':
                    tasks.append(asyncio.ensure_future(
                        conn.client.async_close()))
                else:
                    net.break_link(conn.link, op)
            await net.pause(ms)

        # everything is obtained in the end
        await sim.within(100, remote.persisted_all(), 'persist')
        for i in range(3):
            await asyncio.sleep(SETTLE)
            conn = conns[-1]
            if not conn.lost and conn.client.is_open:
                break
            await connect()
        conn = conns[-1]
        check(not conn.lost and conn.client.is_open, 'connection is closed')
        check(local.stored == remote.persisted,
              'local server has %s sessions, remote %s', local.stored,
              remote.persisted)
        check(conn.client.synced == SyncedState.SYNCED, 'synced property %r',
              conn.client.synced)
        check(conn.client.status == remote.status, 'status property')

        # and followed afterwards
        local.fail = False
        remote.persist([2, 1])
        await remote.set_status(common.Status.STOPPING)
        await remote.set_status(common.Status.OPERATIONAL)
        await asyncio.sleep(SETTLE)
        check(local.stored == remote.persisted == len(remote.sessions),
              'local server has %s sessions, remote %s', local.stored,
              len(remote.sessions))

        for conn in conns:
            verify(conn, conn is conns[-1])
        ctx.label('registered sessions', local.registered)
        ctx.label('connections', len(conns))
        ctx.label('queries', sum(len(i.queries) for i in conns))

        if tasks:
            await sim.within(200, asyncio.wait(tasks), 'closing')
        await sim.within(200, conns[-1].client.async_close(), 'closing')
        await sim.within(200, remote.server.async_close(), 'closing')
        check(not loop.errors, 'unhandled errors %r', loop.errors)
        return local, conns

    return sim.run(main, {'net': case['net']})
