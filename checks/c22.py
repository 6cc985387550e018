"""Admission and reporting of eventer server connections"""
TECHNIQUE = ('stateful property-based testing with a simulated network: '
             'generated connections, tokens, engine and status changes and '
             'connection losses against a timeline model')
NOTE = ('Engine is a recording stand-in. Where engine state changes while a '
        'connection is being established or lost, both outcomes are '
        'accepted.')

import asyncio
import collections

from hypothesis import strategies as st

from vlib import gen, net, sim
from vlib.core import Sub, check

from hat import aio
from hat.drivers import chatter
from hat.event import common
from hat.event import eventer
from hat.event.eventer import common as eventer_common
import hat.event.server.eventer_server

SERVER = 5
NAMES = ['client0', 'client1', '', 'ž 😀']
LOST_TIMEOUT = {'close': 5, 'cut': 5, 'blackhole': 60}

_index = st.integers(0, 7)
_delay = gen.timing([0, 0, -1, 1, 5, 50, 1000, 6000, 70_000])
_token = st.sampled_from([None, None, None, 'right', 'right', 'wrong',
                          'wrong', '', 'ž😀', 'secre', 'Secret'])

_op = gen.weighted(
    (6, st.tuples(st.just('connect'), st.integers(0, 3), st.booleans(),
                  _token, gen.weighted((4, st.just(True)),
                                       (1, st.just(False))))),
    (3, net.fault(_index)),
    (3, st.tuples(st.just('status'), st.sampled_from(
        ['STANDBY', 'STARTING', 'OPERATIONAL', 'OPERATIONAL', 'OPERATIONAL',
         'STOPPING']))),
    (1, st.tuples(st.just('close engine'))),
    # connecting while engine is closing or status is changing
    (1, st.tuples(st.just('race'), st.integers(0, 3), st.sampled_from(
        [0, -3, -8, -12, -15, -20, -30, 1, 5, 20]), st.sampled_from(
            ['engine', 'STANDBY', 'OPERATIONAL']))),
    # connecting is cancelled
    (2, st.tuples(st.just('abandon'), st.integers(0, 3), st.sampled_from(
        [0, -2, -5, -8, -12, -15, -20, -30, 1, 5, 20, 60]), _token)),
    # refused peer which keeps sending requests
    (1, st.tuples(st.just('intrude'), st.lists(st.tuples(
        st.sampled_from([0, 0, 1, 400, 700, 3000]),
        st.sampled_from(['register', 'query', 'ack', 'init'])),
        min_size=1, max_size=4))),
    # peer which acknowledges notifications while its registrations are being
    # processed and leaves
    (1, st.tuples(st.just('hasty'), st.integers(0, 3), st.integers(0, 3),
                  st.sampled_from(['registers first', 'acks first', 'mixed']),
                  gen.timing([0, 0, -1, -2, -5, -10, 1, 20]),
                  st.booleans())),
    (2, st.tuples(st.just('register'), _index)))


def strategy():
    step = st.tuples(_op, _delay)
    return st.fixed_dictionaries({
        'net': net.conf,
        'token': st.sampled_from([None, 'secret', 'secret', '', 'ž😀',
                                  'x' * 5000]),
        'operational': st.booleans(),
        'engine_delay': st.lists(gen.timing([0, 0, -1, 1, 50]),
                                 max_size=3),
        'ops': gen.one_of(st.lists(step, min_size=2, max_size=8),
                          st.lists(step, min_size=6, max_size=20))})


class _Engine(common.Engine):

    def __init__(self, delay, listed):
        self._group = aio.Group()
        self._listed = listed
        self._delay = delay
        self.log = []  # [source, type, payload]
        self.registered = []

    @property
    def async_group(self):
        return self._group

    @property
    def server_id(self):
        return SERVER

    async def register(self, source, events):
        if not self.is_open:
            raise Exception('engine closed')
        check(isinstance(source, common.Source) and
              source.type == common.SourceType.EVENTER, 'source %r', source)
        events = list(events)
        for i in events:
            if i.type == ('marker',):
                self.registered.append((source.id, i.payload.data))
                continue
            check(len(events) == 1 and i.source_timestamp is None and
                  isinstance(i.payload, common.EventPayloadJson) and
                  i.payload.data in ('CONNECTED', 'DISCONNECTED') and
                  isinstance(i.type, tuple) and len(i.type) == 4 and
                  i.type[:3] == ('event', str(SERVER), 'eventer'),
                  'unexpected events %r', events)
            self.log.append((source.id, i.type[3], i.payload.data))
            if i.payload.data == 'DISCONNECTED':
                check(source not in self._listed(),
                      'disconnected client %s is listed', i.type[3])
        await net.pause(self._delay.next())
        if not self.is_open:
            raise Exception('engine closed')
        return []

    async def query(self, params):
        raise NotImplementedError()

    def get_client_names(self):
        raise NotImplementedError()

    def restart(self):
        raise NotImplementedError()

    def reset_monitor_ready(self):
        raise NotImplementedError()


class _Backend:

    def __init__(self):
        self.queries = []

    async def query(self, params):
        self.queries.append(params)
        return common.QueryResult([], False)


async def _intrude(requests):
    conn = await chatter.connect(net.ADDR)
    got = []

    async def receive():
        while True:
            _, msg_type, data = await eventer_common.receive_msg(conn)
            got.append((msg_type, data))

    conn.async_group.spawn(sim.outcome, receive())

    async def send(msg_type, data):
        await eventer_common.send_msg(conn, f'HatEventer.{msg_type}', data,
                                      last=False)

    init = {'clientName': 'intruder', 'clientToken': ('value', 'intruder'),
            'subscriptions': [['*']], 'serverId': ('none', None),
            'persisted': False}
    try:
        await send('MsgInitReq', init)
        for ms, kind in requests:
            await net.pause(ms)
            if kind == 'register':
                await send('MsgRegisterReq', [
                    common.register_event_to_sbs(common.RegisterEvent(
                        ('marker', ), None, common.EventPayloadJson(-1)))])
            elif kind == 'query':
                await send('MsgQueryReq', common.query_params_to_sbs(
                    common.QueryLatestParams()))
            elif kind == 'ack':
                await send('MsgEventsAck', None)
            else:
                await send('MsgInitReq', {**init,
                                          'clientToken': ('none', None)})
        await asyncio.sleep(5)
    except ConnectionError:
        pass
    await sim.within(100, conn.async_close(), 'closing')
    check(all(i[0] == 'HatEventer.MsgInitRes' and i[1][0] == 'error'
              for i in got[:1]) and len(got) < 2,
          'refused client obtained %r', got)


class _Conn:

    def __init__(self, n, name, valid):
        self.n = n
        self.name = name
        self.valid = valid
        self.started = None
        self.connected = None  # time
        self.error = None
        self.lost = None  # [from, to]
        self.client = None
        self.link = None
        self.source = None


class _Timeline:
    """Values of something during time"""

    def __init__(self, value):
        self._changes = [(-1, value)]

    def set(self, time, value):
        self._changes.append((time, value))

    def between(self, start, end):
        """All values that could have been seen"""
        values = []
        for i, (time, value) in enumerate(self._changes):
            until = (self._changes[i + 1][0] if i + 1 < len(self._changes)
                     else None)
            if time <= end and (until is None or until >= start):
                values.append(value)
        return values


def run(case, ctx):
    async def main(loop):
        net.track(loop)
        delay = sim.Cyc(case['engine_delay'])
        backend = _Backend()
        server = await hat.event.server.eventer_server.create_eventer_server(
            net.ADDR, backend, SERVER, server_token=case['token'])
        engines = []
        engine_line = _Timeline(None)
        status_line = _Timeline(common.Status.STANDBY)
        state = {'engine': None, 'status': common.Status.STANDBY,
                 'changed': -1}
        conns = []
        tasks = []

        async def set_status(name):
            status = common.Status[name]
            if state['engine'] is not None:
                engine_line.set(loop.time(), None)
            engine = None
            if name == 'OPERATIONAL':
                engine = _Engine(delay, lambda: [
                    source for source, _ in server.get_client_names()])
                engines.append(engine)
                engine_line.set(loop.time(), engine)
            status_line.set(loop.time(), status)
            state.update(engine=engine, status=status, changed=loop.time())
            await sim.within(100, server.set_status(status, engine),
                             'set_status')

        async def connect(index, duplicate, token, wait):
            name = NAMES[index] + ('' if duplicate else f'.{len(conns)}')
            token = case['token'] if token == 'right' else token
            conn = _Conn(len(conns), name,
                         token is None or token == case['token'])
            conns.append(conn)
            conn.started = loop.time()
            net.connecting.set(conn)
            task = asyncio.ensure_future(establish(conn, token))
            tasks.append(task)
            if wait:
                await sim.within(200, asyncio.wait([task]), 'connect')
            else:
                await asyncio.sleep(0)

        async def establish(conn, token):
            kind, value = await sim.outcome(eventer.connect(
                net.ADDR, conn.name, client_token=token))
            if kind == 'error':
                if conn.lost is None:
                    check(not conn.valid, 'connecting failed with %r', value)
                    check(isinstance(value, eventer.EventerInitError),
                          'connecting with invalid token failed with %r',
                          value)
                conn.error = value
                ctx.label('refused')
                return
            check(conn.valid, 'connected with invalid token')
            conn.client = value
            conn.connected = loop.time()
            if conn.lost is not None:
                await value.async_close()
                return
            statuses = status_line.between(conn.started, loop.time())
            check(conn.client.status in statuses, 'status %r, expected %r',
                  conn.client.status, statuses)
            ctx.label('connected')

        async def register(conn):
            await conn.client.register([common.RegisterEvent(
                ('marker',), None, common.EventPayloadJson(conn.n))],
                with_response=False)

        async def hasty(acks, registers, order, ms, graceful):
            conn = _Conn(len(conns), f'hasty{len(conns)}', True)
            conns.append(conn)
            conn.started = loop.time()
            net.connecting.set(conn)
            conn.client = raw = await sim.within(
                200, chatter.connect(net.ADDR), 'connect')

            async def send(msg_type, data, conv=None, last=True):
                await eventer_common.send_msg(
                    raw, f'HatEventer.{msg_type}', data, conv=conv, last=last)

            async def receive(msg_type):
                while True:
                    msg, received, data = await sim.within(
                        200, eventer_common.receive_msg(raw), msg_type)
                    if received == 'HatEventer.MsgStatusNotify':
                        continue
                    check(received == f'HatEventer.{msg_type}',
                          'received %s instead of %s', received, msg_type)
                    return msg, data

            await send('MsgInitReq', {
                'clientName': conn.name, 'clientToken': ('none', None),
                'subscriptions': [['*']], 'serverId': ('none', None),
                'persisted': False}, last=False)
            _, data = await receive('MsgInitRes')
            check(data[0] == 'success', 'initialization failed: %r', data)
            conn.connected = loop.time()

            notifies = [asyncio.ensure_future(server.notify_events([
                common.Event(common.EventId(SERVER, 1, i + 1),
                             ('a', ), common.Timestamp(1, 0), None, None)],
                False, True)) for i in range(acks)]
            msgs = [(await receive('MsgEventsNotify'))[0]
                    for _ in range(acks)]
            sends = [('MsgEventsAck', None, i.conv) for i in msgs]
            if state['engine'] is not None and state['engine'].is_open:
                reqs = [('MsgRegisterReq', [common.register_event_to_sbs(
                    common.RegisterEvent(('marker', ), None,
                                         common.EventPayloadJson(conn.n)))],
                    None)] * registers
                sends = {'registers first': [*reqs, *sends],
                         'acks first': [*sends, *reqs],
                         'mixed': [*reqs[:1], *sends, *reqs[1:]]}[order]
            for i in sends:
                await send(*i)
            if ms:
                await net.pause(ms)
            conn.lost = [loop.time(), loop.time() + 5]
            if graceful:
                await raw.drain()
                await raw.async_close()
            else:
                conn.link.cut(0, 0)
            if notifies:
                await sim.within(100, asyncio.wait(notifies),
                                 'acknowledged notification')
            for i in notifies:
                i.result()
            await asyncio.sleep(1)
            ctx.label('hasty')

        def close_engine():
            if state['engine'] is not None and state['engine'].is_open:
                engine_line.set(loop.time(), None)
                state['engine'].close()

        if case['operational']:
            await set_status('OPERATIONAL')

        for op, ms in case['ops']:
            if op[0] == 'connect':
                await connect(*op[1:])

            elif op[0] == 'status':
                await set_status(op[1])

            elif op[0] == 'close engine':
                close_engine()

            elif op[0] == 'race':
                await connect(op[1], False, None, False)
                await net.pause(op[2])
                if op[3] == 'engine':
                    close_engine()
                else:
                    await set_status(op[3])
                await sim.within(200, asyncio.wait(tasks[-1:]), 'connect')

            elif op[0] == 'abandon':
                await connect(op[1], False, op[3], False)
                await net.pause(op[2])
                if not tasks[-1].done():
                    conn = conns[-1]
                    conn.lost = [loop.time(), loop.time() + 5]
                    conn.error = 'abandoned'
                    tasks[-1].cancel()
                    await sim.within(200, asyncio.wait(tasks[-1:]), 'connect')
                    if tasks[-1].cancelled():
                        tasks.pop()
                    ctx.label('abandoned')

            elif op[0] == 'intrude':
                net.connecting.set(_Conn(-1, 'intruder', False))
                tasks.append(asyncio.ensure_future(_intrude(op[1])))
                ctx.label('intruders')

            elif op[0] == 'hasty':
                await hasty(*op[1:])

            elif op[0] == 'register':
                live = [i for i in conns if i.client and i.lost is None]
                if live and state['engine'] and state['engine'].is_open:
                    await register(live[op[1] % len(live)])
                    # engine may not be closed before it is handled
                    await asyncio.sleep(1)

            else:
                live = [i for i in conns if i.link and i.lost is None and
                        i.error is None]
                if not live:
                    continue
                conn = live[op[1] % len(live)]
                kind = op[0]
                if kind == 'close' and not conn.client:
                    continue
                conn.lost = [loop.time(), loop.time() + LOST_TIMEOUT[kind]]
                ctx.label(f'connection {kind}' + (
                    '' if conn.client else ' while connecting'))
                if kind == 'close':
                    tasks.append(asyncio.ensure_future(
                        conn.client.async_close()))
                else:
                    net.break_link(conn.link, op)

            await net.pause(ms)
            _verify_names(server, conns, loop.time(), state)

        await sim.within(1000, asyncio.wait(tasks) if tasks
                         else asyncio.sleep(0), 'connecting and closing')
        for task in tasks:
            task.result()
        await asyncio.sleep(100)
        _verify_names(server, conns, loop.time(), state)
        check(server.is_open, 'server is closed')
        check(not backend.queries, 'query of refused client is processed')
        open_until_end = [i for i in conns if i.client and i.lost is None]
        for conn in open_until_end:
            conn.lost = [loop.time(), loop.time() + 5]
        await sim.within(100, server.async_close(), 'closing of server')
        await asyncio.sleep(10)
        for conn in conns:
            if conn.client:
                await sim.within(100, conn.client.wait_closed(),
                                 'closing of clients')

        _verify_events(conns, engines, engine_line, ctx)
        ctx.nontrivial = sum(len(i.log) for i in engines) > 1
        check(not loop.errors, 'unhandled errors %r', loop.errors)

    sim.run(main, {'net': case['net']})


def _verify_names(server, conns, now, state):
    """Listed connections, unless something is happening"""
    if any(i.valid and i.connected is None and i.error is None
           for i in conns):
        return
    if any(i.lost and i.lost[1] >= now for i in conns):
        return
    live = [i for i in conns if i.client and i.lost is None]
    names = list(server.get_client_names())
    for source, name in names:
        check(isinstance(source, common.Source) and
              source.type == common.SourceType.EVENTER, 'source %r', source)
    check(len({i.id for i, _ in names}) == len(names),
          'same source of different connections: %r', names)
    check(sorted(i for _, i in names) == sorted(i.name for i in live),
          'listed clients %r, connected %r', names, [i.name for i in live])
    for conn in live:
        # source of connection never changes
        found = [i.id for i, name in names if name == conn.name]
        if len(found) == 1:
            check(conn.source in (None, found[0]), 'source of %s changed',
                  conn.name)
            conn.source = found[0]
        if now > state['changed'] + 5:
            check(conn.client.status == state['status'],
                  'status of client %r, server %r', conn.client.status,
                  state['status'])
    sources = [i.source for i in conns if i.source is not None]
    check(len(set(sources)) == len(sources), 'reused source ids %r', sources)


def _verify_events(conns, engines, engine_line, ctx):
    expected = collections.defaultdict(lambda: [0, 0])
    for conn in conns:
        if not conn.valid:
            continue
        if conn.connected is not None:
            seen = engine_line.between(conn.started, conn.connected)
            certain = len(seen) == 1
        else:
            # lost while connecting
            seen = engine_line.between(conn.started, conn.lost[1])
            certain = False
        for engine in seen:
            if engine is None:
                continue
            item = expected[engine, conn.name, 'CONNECTED']
            item[1] += 1
            if certain:
                item[0] += 1
        seen = engine_line.between(conn.lost[0], conn.lost[1])
        certain = len(seen) == 1 and conn.connected is not None
        for engine in seen:
            if engine is None:
                continue
            item = expected[engine, conn.name, 'DISCONNECTED']
            item[1] += 1
            if certain:
                item[0] += 1

    for engine in engines:
        counts = collections.Counter(
            (engine, name, kind) for _, name, kind in engine.log)
        for key in {*counts, *(i for i in expected if i[0] is engine)}:
            low, high = expected[key]
            check(low <= counts[key] <= high,
                  '%s events of %s: %s, expected from %s to %s',
                  key[2], key[1], counts[key], low, high)
            ctx.label(key[2], counts[key])

    # sources
    names = {}
    for kind in ('CONNECTED', 'DISCONNECTED'):
        log = [i for engine in engines for i in engine.log if i[2] == kind]
        ids = [i for i, _, __ in log]
        check(len(set(ids)) == len(ids), 'reused source ids in %r', log)
        for i, name, _ in log:
            check(names.setdefault(i, name) == name,
                  'source of different clients: %r', log)
    for engine in engines:
        kinds = collections.defaultdict(list)
        for i, _, kind in engine.log:
            kinds[i].append(kind)
        for i, value in kinds.items():
            check(value in (['CONNECTED'], ['DISCONNECTED'],
                            ['CONNECTED', 'DISCONNECTED']),
                  'events of source %s: %r', i, value)

    # registrations have the source of their connection
    used = {}
    by_n = {i.n: i for i in conns}
    for engine in engines:
        for i, n in engine.registered:
            check(n in by_n, 'registration of refused client is processed')
            conn = by_n[n]
            check(conn.source in (None, i) and used.setdefault(n, i) == i and
                  names.get(i, conn.name) == conn.name,
                  'registration of %s has source %s, expected %s', conn.name,
                  i, conn.source)
    check(len(set(used.values())) == len(used), 'source of other connection')


SUBS = [
    Sub('connections', strategy, run, 2400, 60000,
        'cases with more than one reported connection event')]
