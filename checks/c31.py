"""Misbehaving peers"""
TECHNIQUE = ('structure-aware fuzzing of both sides of both protocols over a '
             'simulated network (generated message sequences, mutated frames, '
             'raw bytes, aborts) with an expected behaviour model and '
             'well-behaved peers next to the misbehaving ones')
NOTE = ('Exact behaviour is predicted for peers as long as all they sent is '
        'well formed; afterwards only validity of what is delivered and '
        'unchanged service for others is required. Peers which do not read '
        'or which stay silent forever are not generated, each misbehaving '
        'peer is finally disconnected.')

import asyncio

from hypothesis import strategies as st

from vlib import gen, model, net, peer, sim
from vlib.core import Sub, check

from hat import aio
from hat.drivers import net as drivers_net
from hat.event import adminer
from hat.event import common
from hat.event import eventer

ADDR = net.ADDR

# messages which are never accepted by a side of connection
_CHATTER = {'HatChatter.Msg', 'HatChatter.Ping', 'HatChatter.Pong'}
_BY_CLIENT = {'HatEventer.MsgInitReq', 'HatEventer.MsgEventsAck',
              'HatEventer.MsgRegisterReq', 'HatEventer.MsgQueryReq'}
_BY_SERVER = {'HatEventer.MsgStatusNotify', 'HatEventer.MsgEventsNotify',
              'HatEventer.MsgRegisterRes', 'HatEventer.MsgQueryRes'}
_BY_ADM_CLIENT = {'HatEventAdminer.MsgGetLogConfReq',
                  'HatEventAdminer.MsgSetLogConfReq'}
_BY_ADM_SERVER = {'HatEventAdminer.MsgGetLogConfRes',
                  'HatEventAdminer.MsgSetLogConfRes'}
_FOR_SERVER = set(peer.TYPES) - _CHATTER - _BY_CLIENT
_FOR_CLIENT = set(peer.TYPES) - _CHATTER - _BY_SERVER
_FOR_ADM_SERVER = set(peer.TYPES) - _CHATTER - _BY_ADM_CLIENT
_FOR_ADM_CLIENT = set(peer.TYPES) - _CHATTER - _BY_ADM_SERVER

_type = st.sampled_from([['a'], ['b'], ['a', 'b'], ['ab'], [], ['č', '*', '?']])
_query_type = gen.one_of(_type, st.sampled_from(
    [['*'], ['*'], ['a', '*'], ['?', 'b'], ['*', 'a']]))

_register_event = st.fixed_dictionaries({
    'type': st.lists(gen.one_of(gen.segment, st.sampled_from(
        ['a', '*', '?'])), max_size=3),
    'sourceTimestamp': gen.weighted(
        (2, st.none()), (2, gen.timestamp.map(
            lambda i: {'s': i[0], 'us': i[1]})),
        (1, peer.wild_timestamp)),
    'payload': peer.wild_payload})

_opt_int = gen.opt(1, peer._int)
_opt_id = gen.opt(1, st.fixed_dictionaries({
    'server': peer._int, 'session': peer._int, 'instance': peer._int}))
_opt_ts = gen.opt(1, peer.wild_timestamp)
_opt_types = gen.opt(1, st.lists(_query_type, max_size=2))

_query = gen.one_of(
    st.tuples(st.just('latest'), st.fixed_dictionaries({
        'eventTypes': _opt_types})),
    st.tuples(st.just('timeseries'), st.fixed_dictionaries({
        'eventTypes': _opt_types, 'tFrom': _opt_ts, 'tTo': _opt_ts,
        'sourceTFrom': _opt_ts, 'sourceTTo': _opt_ts,
        'order': st.sampled_from(['descending', 'ascending']),
        'orderBy': st.sampled_from(['timestamp', 'sourceTimestamp']),
        'maxResults': _opt_int, 'lastEventId': _opt_id})),
    st.tuples(st.just('server'), st.fixed_dictionaries({
        'serverId': peer._int, 'persisted': st.booleans(),
        'maxResults': _opt_int, 'lastEventId': _opt_id})))

_init = st.tuples(
    st.just('init'),
    st.sampled_from(['good', 'good', 'good', 'good', 'bad', None]),
    gen.weighted((3, st.just([['*']])),
                 (1, st.lists(_query_type, max_size=2))),
    st.sampled_from([None, None, 1, -1]), st.booleans())

_mutation = gen.opt(5, peer.mutation)

_request = gen.weighted(
    (4, st.tuples(st.just('register'), st.lists(_register_event, max_size=3))),
    (2, st.tuples(st.just('query'), _query)),
    (2, st.tuples(st.just('ack'))), (1, _init), (1, peer.other))

_msg = st.tuples(st.just('msg'), _request, peer.conv, st.booleans(),
                 _mutation)

_abort = st.tuples(st.just('abort'), st.booleans(), net.delay)

# first message of connection is usually initialization
_first = st.tuples(st.just('first'), gen.weighted(
    (8, _init), (1, _request), (1, peer.other)), _mutation)

_attack = st.tuples(
    st.just('attack'), st.integers(0, 2), _first,
    gen.weighted((8, _msg), (1, peer.raw), (1, _abort)))

_event = st.fixed_dictionaries({
    'type': _type, 'st': st.none() | gen.timestamp, 'payload': gen.payload})
_events = st.lists(_event, min_size=1, max_size=3)

_good = gen.one_of(
    st.tuples(st.just('register'), st.integers(0, 1), _events,
              st.booleans()),
    st.tuples(st.just('query'), st.integers(0, 1), gen.params),
    st.tuples(st.just('notify'), _events, st.booleans(), st.booleans()),
    st.tuples(st.just('acks'), _events, st.booleans()),
    st.tuples(st.just('status'), st.sampled_from(
        ['STANDBY', 'STARTING', 'OPERATIONAL', 'STOPPING'])))


def server_strategy():
    step = st.tuples(gen.weighted((3, _attack), (1, _good)), net.delay)
    return st.fixed_dictionaries({
        'net': net.conf, 'pong': st.booleans(),
        'cb_delay': st.lists(gen.timing([0, 0, 1, -1, 20]), max_size=3),
        'ops': gen.one_of(st.lists(step, min_size=1, max_size=8),
                          st.lists(step, min_size=6, max_size=20))})


def _to_event(spec, n):
    return common.Event(
        id=common.EventId(1, 1, n), type=tuple(spec['type']),
        timestamp=common.Timestamp(1000, n),
        source_timestamp=gen.to_ts(spec['st']),
        payload=gen.to_payload(spec['payload']))


def _to_register_event(spec):
    return common.RegisterEvent(
        type=tuple(spec['type']), source_timestamp=gen.to_ts(spec['st']),
        payload=gen.to_payload(spec['payload']))


def _request_sbs(request, name):
    """Type, encoded data and whether data is valid"""
    kind = request[0]
    if kind == 'init':
        return 'HatEventer.MsgInitReq', common.sbs_repo.encode(
            'HatEventer.MsgInitReq', {
                'clientName': name, 'clientToken': peer.opt_sbs(request[1]),
                'subscriptions': request[2],
                'serverId': peer.opt_sbs(request[3]),
                'persisted': request[4]})
    if kind == 'register':
        return 'HatEventer.MsgRegisterReq', common.sbs_repo.encode(
            'HatEventer.MsgRegisterReq', [
                {'type': i['type'],
                 'sourceTimestamp': peer.opt_sbs(i['sourceTimestamp']),
                 'payload': peer.payload_sbs(i['payload'])}
                for i in request[1]])
    if kind == 'query':
        data = {}
        for k, v in request[1][1].items():
            if k in ('order', 'orderBy'):
                v = v, None
            elif k not in ('serverId', 'persisted'):
                v = peer.opt_sbs(v)
            data[k] = v
        return 'HatEventer.MsgQueryReq', common.sbs_repo.encode(
            'HatEventer.MsgQueryReq', (request[1][0], data))
    if kind == 'ack':
        return 'HatEventer.MsgEventsAck', b''
    return request[1], bytes.fromhex(request[2])


def _decode_event(spec):
    """Register event or `None` if it should not be accepted"""
    import json
    ts = spec['sourceTimestamp']
    if ts is not None:
        ts = common.Timestamp(ts['s'], ts['us'])
    payload = spec['payload']
    if payload is not None:
        if payload[0] == 'json':
            try:
                data = json.loads(payload[1])
            except Exception:
                return
            payload = common.EventPayloadJson(data)
        else:
            payload = common.EventPayloadBinary(payload[1],
                                                bytes.fromhex(payload[2]))
    event = common.RegisterEvent(type=tuple(spec['type']),
                                 source_timestamp=ts, payload=payload)
    return event if peer.valid_event(event, 10**6) else None


def _decode_query(query):
    """Query parameters or `None` if these could be rejected"""
    kind, data = query

    def ts(x):
        return common.Timestamp(x['s'], x['us']) if x is not None else None

    def event_id(x):
        return (common.EventId(x['server'], x['session'], x['instance'])
                if x is not None else None)

    times = []
    if kind == 'latest':
        params = common.QueryLatestParams(
            event_types=gen.to_types(data['eventTypes']))
    elif kind == 'timeseries':
        times = [ts(data[i]) for i in ('tFrom', 'tTo', 'sourceTFrom',
                                       'sourceTTo')]
        params = common.QueryTimeseriesParams(
            gen.to_types(data['eventTypes']), *times,
            order=common.Order[data['order'].upper()],
            order_by=(common.OrderBy.TIMESTAMP
                      if data['orderBy'] == 'timestamp' else
                      common.OrderBy.SOURCE_TIMESTAMP),
            max_results=data['maxResults'],
            last_event_id=event_id(data['lastEventId']))
    else:
        params = common.QueryServerParams(
            server_id=data['serverId'], persisted=data['persisted'],
            max_results=data['maxResults'],
            last_event_id=event_id(data['lastEventId']))
    if not all(i is None or peer.valid_timestamp(i, 10**6)
               for i in times):
        return
    if kind != 'latest':
        if params.last_event_id and not peer.valid_id(params.last_event_id):
            return
        if params.max_results is not None and params.max_results < 1:
            return
    if kind == 'server' and params.server_id < 0:
        return
    return params


class _Attacker(peer.Peer):
    """Single connection of misbehaving client"""

    def __init__(self, name, pong):
        super().__init__(pong)
        self.name = name
        self.state = 'new'  # open, closed, unknown
        self.expected = []  # calls of callbacks
        self.got = []
        self.responses = []  # expected, (type, conversation)
        self.aborted = False
        self.init_mutated = False

    def note(self, request, mutation, conv=None, last=False):
        """Predict effects of message"""
        if self.state in ('closed', 'unknown'):
            return
        if (request[0] == 'other' and not mutation and
                request[1] in _FOR_SERVER):
            self.state = 'closed'
        elif mutation or request[0] == 'other':
            # most of other messages close the connection
            self.init_mutated |= self.state == 'new'
            self.state = 'unknown'
        elif self.state == 'new':
            if request[0] != 'init':
                self.state = 'closed'
                return
            if any('*' in i[:-1] for i in request[2]):
                # invalid subscription
                self.state = 'unknown'
            elif request[1] != 'good':
                self.state = 'closed'
            else:
                self.state = 'open'
        elif request[0] == 'init':
            self.state = 'closed'
        elif request[0] == 'register':
            events = [_decode_event(i) for i in request[1]]
            if None in events:
                self.state = 'unknown'
            else:
                self.expected.append(events)
                if not last:
                    self.responses.append(('HatEventer.MsgRegisterRes',
                                           conv or (True, self._id + 1)))
        elif request[0] == 'query':
            params = _decode_query(request[1])
            if params is None:
                self.state = 'unknown'
            else:
                self.expected.append(params)
                self.responses.append(('HatEventer.MsgQueryRes',
                                       conv or (True, self._id + 1)))

    def verify_responses(self):
        if self.state == 'unknown':
            return
        got = [i for i in self.msgs if i[0] in ('HatEventer.MsgRegisterRes',
                                                'HatEventer.MsgQueryRes')]
        check(all(i[3] for i in got), 'response which is not last: %r', got)
        got = [(i[0], i[2]) for i in got]
        expected = self.responses
        if self.state != 'open' or self.closed or self.aborted:
            # connection could be closed before all are received
            check(len(got) <= len(expected), 'responses %r, expected %r',
                  got, expected)
            expected = expected[:len(got)]
        check(got == expected, 'responses %r, expected %r', got, expected)

    def verify(self):
        count = len(self.expected)
        if self.aborted or self.state == 'unknown':
            # connection could be closed before everything is processed
            count = min(count, len(self.got))
        check(gen.same(self.expected[:count], self.got[:count]),
              'peer %s requested %r, obtained %r', self.name, self.expected,
              self.got)
        check(self.state == 'unknown' or len(self.got) <= count,
              'peer %s requested %r, obtained %r', self.name, self.expected,
              self.got)


def server_run(case, ctx):
    async def main(loop):
        net.track(loop)
        infos = {}
        closed = []
        cb_delay = sim.Cyc(case['cb_delay'])
        attackers = {}  # by name
        goods = [[], []]  # expected callback calls
        calls = 0

        async def on_connected(info):
            check(info.id not in infos, 'connected twice %r', info)
            await net.pause(cb_delay.next())
            if info.client_token != 'good':
                raise Exception('invalid token')
            infos[info.id] = info

        async def on_disconnected(info):
            check(infos.get(info.id) == info and info.id not in closed,
                  'disconnected %r', info)
            closed.append(info.id)
            await net.pause(cb_delay.next())

        def on_call(info, value):
            check(infos.get(info.id) == info and info.id not in closed,
                  'request of %r which is not accepted', info)
            if info.client_name in attackers:
                attackers[info.client_name].got.append(value)
            elif info.client_name in ('good0', 'good1'):
                exp = goods[int(info.client_name[-1])]
                check(exp and gen.same(exp[0], value),
                      'well-behaved client requested %r, obtained %r', exp,
                      value)
                exp.pop(0)

        async def on_register(info, events):
            nonlocal calls
            events = list(events)
            check(all(isinstance(i, common.RegisterEvent) and
                      peer.valid_event(i) for i in events),
                  'registration of %r', events)
            on_call(info, events)
            calls += 1
            n = calls
            await net.pause(cb_delay.next())
            if n % 4 == 3:
                return None
            return [common.Event(common.EventId(1, n, i + 1), event.type,
                                 common.Timestamp(5, n),
                                 event.source_timestamp, event.payload)
                    for i, event in enumerate(events)]

        async def on_query(info, params):
            check(isinstance(params, (common.QueryLatestParams,
                                      common.QueryTimeseriesParams,
                                      common.QueryServerParams)),
                  'query %r', params)
            on_call(info, params)
            await net.pause(cb_delay.next())
            return _result(params)

        server = await eventer.listen(
            ADDR, connected_cb=on_connected, disconnected_cb=on_disconnected,
            register_cb=on_register, query_cb=on_query)

        clients = []
        slow = set()  # identifiers of events
        notified = [[], []]
        expected = [[], []]
        statuses = [[], []]
        expected_statuses = []
        status = common.Status.STANDBY
        for i in range(2):
            async def events_cb(client, events, i=i):
                await net.pause(cb_delay.next())
                if slow.intersection(e.id for e in events):
                    await net.pause(200)
                notified[i].append(gen.events_of(events))

            clients.append(await eventer.connect(
                ADDR, f'good{i}', client_token='good',
                subscriptions=[('a', '*')] if i else [('*',)],
                persisted=bool(i), events_cb=events_cb,
                status_cb=lambda _, s, i=i: statuses[i].append(s)))
        subs = [[['*']], [['a', '*']]]

        # requests of each client are sequential
        tasks = []
        locks = [asyncio.Lock(), asyncio.Lock()]
        counter = 0

        async def register(i, events, with_response):
            async with locks[i]:
                goods[i].append(events)
                before = calls
                result = await clients[i].register(events, with_response)
                if not with_response:
                    check(result is None, 'result %r', result)
                    return
                if result is None:
                    return
                result = gen.events_of(result)
                check(len(result) == len(events) and all(
                    gen.same(r._replace(id=None, timestamp=None),
                             common.Event(None, e.type, None,
                                          e.source_timestamp, e.payload)) and
                    r.id.session > before
                    for r, e in zip(result, events)),
                    'registration of %r ended with %r', events, result)

        async def query(i, params):
            async with locks[i]:
                goods[i].append(params)
                result = await clients[i].query(params)
                check(gen.same(result, _result(params)),
                      'query %r ended with %r', params, result)

        async def notify(events, persisted, ack):
            if ack:
                # acknowledged when everybody processed it
                targets = [i for i in range(2) if i == persisted and
                           any(model.any_matches(e.type, subs[i])
                               for e in events)]
                await server.notify_events(events, persisted, True)
                for i in targets:
                    exp_id = _filter(events, subs[i])[0].id
                    check(any(e.id == exp_id for j in notified[i]
                              for e in j),
                          'acknowledged before client processed it')
            else:
                await sim.within(300, server.notify_events(
                    events, persisted, False), 'notification')

        def _filter(events, subs):
            return [i for i in events if model.any_matches(i.type, subs)]

        current = {}
        names = 0

        def abort(attacker, graceful, delay):
            attacker.aborted = True
            if graceful:
                attacker.conn.close()
            else:
                attacker.link.cut(delay, delay)

        for op, delay in case['ops']:
            if op[0] == 'attack':
                _, i, first, action = op
                attacker = current.get(i)
                if attacker is None or attacker.closed or attacker.aborted:
                    names += 1
                    name = f'attacker-{names:04}' + 'abcde'[names % 5] * 5
                    attacker = current[i] = attackers[name] = _Attacker(
                        name, case['pong'])
                    net.connecting.set(attacker)
                    await attacker.connect(ADDR)
                    attacker.note(first[1], first[2])
                    msg_type, data = _request_sbs(first[1], name)
                    await attacker.send(None, False, msg_type, data, first[2])
                if action[0] == 'raw':
                    attacker.note(['other', None], None)
                    await attacker.write(bytes.fromhex(action[1]))
                elif action[0] == 'abort':
                    abort(attacker, *action[1:])
                else:
                    _, request, conv, last, mutation = action
                    msg_type, data = _request_sbs(request, attacker.name)
                    conv = attacker.conv(conv)
                    attacker.note(request, mutation, conv, last)
                    ctx.label(f'state {attacker.state}')
                    await attacker.send(conv, last, msg_type,
                                        data, mutation)

            elif op[0] == 'register':
                events = [_to_register_event(i) for i in op[2]]
                tasks.append(asyncio.ensure_future(
                    register(op[1], events, op[3])))

            elif op[0] == 'query':
                tasks.append(asyncio.ensure_future(
                    query(op[1], gen.to_params(op[2]))))

            elif op[0] in ('notify', 'acks'):
                events = []
                for spec in op[1]:
                    counter += 1
                    events.append(_to_event(spec, counter))
                i = int(op[2])
                acks = op[0] == 'acks'
                if acks:
                    slow.update(e.id for e in events)
                if _filter(events, subs[i]):
                    expected[i].append(_filter(events, subs[i]))
                task = asyncio.ensure_future(
                    notify(events, op[2], acks or op[3]))
                tasks.append(task)
                if acks:
                    # acknowledgements of what others are notified
                    await net.pause(20)
                    for attacker in current.values():
                        if attacker.state != 'open' or attacker.aborted:
                            continue
                        ctx.label('acknowledging peers')
                        for j in range(60):
                            await attacker.send(
                                (False, j), True, 'HatEventer.MsgEventsAck',
                                b'')
                elif not op[3]:
                    await sim.within(300, asyncio.wait([task]), 'notify')
                else:
                    await asyncio.sleep(0.0001)

            elif op[0] == 'status':
                if common.Status[op[1]] != status:
                    status = common.Status[op[1]]
                    expected_statuses.append(status)
                await sim.within(300, server.set_status(status), 'status')
            await net.pause(delay)

        await asyncio.sleep(15)
        for attacker in attackers.values():
            if attacker.state == 'closed' and not attacker.aborted:
                check(attacker.closed, 'connection of %s is not closed',
                      attacker.name)
            attacker.verify_responses()
            abort(attacker, False, 0)
        if tasks:
            await sim.within(100, asyncio.wait(tasks),
                             'requests and notifications')
        await asyncio.sleep(60)
        for task in tasks:
            task.result()

        # nothing is different for well-behaved clients
        check(server.is_open, 'server is closed')
        check([i.client_name for i in server.get_conn_infos()] ==
              ['good0', 'good1'], 'connections %r', server.get_conn_infos())
        for i, client in enumerate(clients):
            check(client.is_open, 'well-behaved client is disconnected')
            check(not goods[i], 'requests %r are not processed', goods[i])
            check(gen.same(notified[i], expected[i]),
                  'client notified %r, expected %r', notified[i], expected[i])
            check(statuses[i] == expected_statuses, 'statuses %r, '
                  'expected %r', statuses[i], expected_statuses)
            check(client.status == status, 'status property')
        check(len(infos) == len(closed) + 2,
              'connected and disconnected callbacks')

        accepted = {i.client_name for i in infos.values()}
        for attacker in attackers.values():
            attacker.verify()
            if attacker.name in accepted:
                ctx.label('accepted attackers')
            elif not attacker.init_mutated:
                check(all(i[0] == 'HatEventer.MsgInitRes' and
                          i[1][0] == 'error' for i in attacker.msgs) and
                      len(attacker.msgs) < 2,
                      'peer which is not accepted obtained %r',
                      attacker.msgs)
                check(not attacker.got, 'peer is not accepted')
        ctx.label('attackers', len(attackers))
        ctx.label('attackers requests', sum(len(i.got)
                                            for i in attackers.values()))
        ctx.nontrivial = any(i.state in ('closed', 'unknown')
                             for i in attackers.values())

        await sim.within(100, server.async_close(), 'closing')
        await asyncio.sleep(10)
        check(not loop.errors, 'unhandled errors %r', loop.errors)

    sim.run(main, {'net': case['net']})


def _result(params):
    return common.QueryResult(
        [common.Event(common.EventId(1, 2, 3), (type(params).__name__,),
                      common.Timestamp(1, 2), None,
                      common.EventPayloadJson([str(type(params)), 1.5]))],
        isinstance(params, common.QueryLatestParams))


# misbehaving eventer server

_rare = gen.opt(12, peer.mutation)

_event_sbs = st.fixed_dictionaries({
    'id': gen.weighted(
        (20, gen.event_id.map(lambda i: dict(zip(
            ['server', 'session', 'instance'], i)))),
        (1, st.fixed_dictionaries({
            'server': peer._int, 'session': peer._int,
            'instance': peer._int}))),
    'type': _type,
    'timestamp': gen.weighted(
        (20, gen.timestamp.map(lambda i: {'s': i[0], 'us': i[1]})),
        (1, peer.wild_timestamp)),
    'sourceTimestamp': gen.weighted((8, st.none()), (1, peer.wild_timestamp)),
    'payload': gen.weighted((8, st.none()), (1, peer.wild_payload))})
_events_sbs = st.lists(_event_sbs, max_size=3)
_status = st.sampled_from(['standby', 'starting', 'operational', 'stopping'])

_answer = st.tuples(
    st.just('answer'), st.integers(0, 5), gen.weighted(
        (4, st.tuples(st.just('right'), _events_sbs, st.booleans())),
        (1, st.tuples(st.just('failure'))),
        (1, st.tuples(st.just('swap'), _events_sbs)),
        (1, peer.other)), _rare)

_srv_op = gen.weighted(
    (4, st.tuples(st.just('notify'), _events_sbs, st.booleans(), _rare)),
    (2, st.tuples(st.just('status'), _status, _rare)),
    (6, _answer),
    (4, st.tuples(st.just('register'), _events, st.booleans())),
    (3, st.tuples(st.just('query'), gen.params)),
    (1, st.tuples(st.just('send'), peer.other, peer.conv, st.booleans())),
    (1, peer.raw))

_srv_init = gen.weighted(
    (24, st.tuples(st.just('success'), _status)),
    (1, st.tuples(st.just('error'), gen.text)),
    (1, st.tuples(st.just('other'), peer.other)),
    (1, st.tuples(st.just('conv'), st.booleans(), st.integers(-1, 3))),
    (1, st.tuples(st.just('mutated'), _status, peer.mutation)),
    (1, st.tuples(st.just('abort'), net.delay)),
    (1, peer.raw))


def client_strategy():
    step = st.tuples(_srv_op, net.delay)
    return st.fixed_dictionaries({
        'net': net.conf, 'init': _srv_init,
        'cb_delay': st.lists(gen.timing([0, 0, 1, -1, 20]), max_size=3),
        'settle': st.booleans(),
        'cb': st.sampled_from([True, True, True, False]),
        'ops': gen.one_of(st.lists(step, max_size=8),
                          st.lists(step, min_size=6, max_size=20))})


def _events_to_sbs(events):
    return [{'id': i['id'], 'type': i['type'], 'timestamp': i['timestamp'],
             'sourceTimestamp': peer.opt_sbs(i['sourceTimestamp']),
             'payload': peer.payload_sbs(i['payload'])} for i in events]


def _decode_events(events):
    """Events or `None` if any is not valid"""
    result = []
    for i in events:
        event = _decode_event(i)
        if event is None:
            return
        event = common.Event(
            common.EventId(**i['id']), event.type,
            common.Timestamp(**i['timestamp']), event.source_timestamp,
            event.payload)
        if not peer.valid_event(event, 10**6):
            return
        result.append(event)
    return result


class _MisServer(peer.Peer):

    def __init__(self):
        super().__init__()
        self.requests = []  # [type, conv, data]
        self.acks = []

    def on_msg(self, msg_type, data, conv, last):
        if msg_type == 'HatEventer.MsgEventsAck':
            self.acks.append(conv)
        elif not last:
            self.requests.append([msg_type, conv, data])


class _ClientModel:

    def __init__(self):
        self.state = 'open'
        self.events = []
        self.statuses = []
        self.answers = {}  # by conv
        self.acks = 0
        self.must_close = False

    def violate(self, exact):
        """Protocol violation, `exact` has to end the connection"""
        if self.state == 'open' and exact:
            self.must_close = True
        self.state = 'unknown'


def client_run(case, ctx):
    async def main(loop):
        net.track(loop)
        cb_delay = sim.Cyc(case['cb_delay'])
        server = _MisServer()
        connected = asyncio.Event()
        exp = _ClientModel()
        got = []
        statuses = []

        def on_connection(conn):
            server.attach(conn)
            connected.set()

        srv = await drivers_net.listen(on_connection, ADDR)

        async def events_cb(client, events):
            events = gen.events_of(events)
            check(all(peer.valid_event(i) for i in events),
                  'invalid events %r', events)
            got.append(events)
            await net.pause(cb_delay.next())

        async def status_cb(client, status):
            check(isinstance(status, common.Status), 'status %r', status)
            check(client.status == status, 'status property')
            statuses.append(status)
            await net.pause(cb_delay.next())

        net.connecting.set(server)
        task = asyncio.ensure_future(sim.outcome(eventer.connect(
            ADDR, 'client', client_token='x', subscriptions=[('*',)],
            events_cb=events_cb if case['cb'] else None,
            status_cb=status_cb)))
        await sim.within(10, connected.wait(), 'connecting')
        while not server.msgs:
            await asyncio.sleep(0.01)
        msg_type, data, conv, last = server.msgs[0]
        check(msg_type == 'HatEventer.MsgInitReq' and not last and
              data['clientName'] == 'client', 'request %r', server.msgs[0])
        server.requests.clear()

        async def send(conv, last, msg_type, data, mutation=None):
            return await server.send(conv, last, msg_type,
                                     common.sbs_repo.encode(msg_type, data),
                                     mutation)

        init = case['init']
        if init[0] in ('success', 'mutated'):
            await send(conv, True, 'HatEventer.MsgInitRes',
                       ('success', (init[1], None)),
                       init[2] if init[0] == 'mutated' else None)
        elif init[0] == 'error':
            await send(conv, True, 'HatEventer.MsgInitRes',
                       ('error', init[1]))
        elif init[0] == 'conv':
            fake = (init[1], init[2])
            await send(fake, True, 'HatEventer.MsgInitRes',
                       ('success', ('standby', None)))
            if fake == conv:
                init = ['success', 'standby']
        elif init[0] == 'other':
            await server.send(conv, True, init[1][1],
                              bytes.fromhex(init[1][2]))
        elif init[0] == 'raw':
            await server.write(bytes.fromhex(init[1]))
        elif init[0] == 'abort':
            server.link.cut(0, init[1])

        if init[0] != 'success':
            # it should not stay waiting after server disconnects
            await asyncio.sleep(1)
            server.link.cut(0, 0)
        kind, client = await sim.within(60, task, 'connecting')
        ctx.label(f'init {init[0]} {kind}')
        if init[0] == 'success':
            check(kind == 'ok', 'connecting failed: %r', client)
            check(client.status == common.Status[init[1].upper()],
                  'status property %r', client.status)
        elif kind == 'error':
            if init[0] == 'error':
                check(isinstance(client, eventer.EventerInitError) and
                      str(client) == init[1], 'connecting failed: %r', client)
        else:
            check(init[0] in ('mutated', 'raw', 'other'),
                  'connected after init response %r', init)
            check(isinstance(client.status, common.Status), 'status %r',
                  client.status)
            await sim.within(60, client.wait_closed(), 'closing')
        if init[0] != 'success':
            check(not got and not statuses, 'callbacks called')
            server.conn.close()
            await sim.within(60, srv.async_close(), 'closing')
            check(not loop.errors, 'unhandled errors %r', loop.errors)
            return

        ops = []

        async def operation(coro, kind):
            result = await sim.outcome(coro)
            if result[0] != 'ok':
                return result
            value = result[1]
            if kind == 'query':
                events, _ = gen.result_of(value)
            elif kind == 'register' or value is None:
                check(value is None, 'registration result %r', value)
                return result
            else:
                check(isinstance(value, list), 'registration result %r',
                      value)
                events = gen.events_of(value, 'registration result')
            check(all(peer.valid_event(i) for i in events),
                  'invalid events %r', events)
            return result

        for op, delay in case['ops']:
            if server.closed:
                break
            if op[0] == 'notify':
                events = _decode_events(op[1])
                if exp.state == 'open':
                    if op[3] or events is None:
                        exp.state = 'unknown'
                    else:
                        exp.events.append(events)
                        exp.acks += op[2]
                await send(None, not op[2], 'HatEventer.MsgEventsNotify',
                           _events_to_sbs(op[1]), op[3])

            elif op[0] == 'status':
                if exp.state == 'open':
                    if op[2]:
                        exp.state = 'unknown'
                    else:
                        exp.statuses.append(common.Status[op[1].upper()])
                await send(None, True, 'HatEventer.MsgStatusNotify',
                           (op[1], None), op[2])

            elif op[0] == 'answer':
                if not server.requests:
                    await net.pause(5)
                if not server.requests:
                    continue
                index = op[1] % len(server.requests)
                req_type, conv, _ = server.requests.pop(index)
                is_query = req_type == 'HatEventer.MsgQueryReq'
                answer, mutation = op[2], op[3]
                if answer[0] == 'other':
                    exp.violate(answer[1] in _FOR_CLIENT)
                    await server.send(conv, True, answer[1],
                                      bytes.fromhex(answer[2]))
                    continue
                if answer[0] == 'failure':
                    events = []
                else:
                    events = _decode_events(answer[1])
                if answer[0] == 'swap' or events is None or mutation:
                    exp.violate(answer[0] == 'swap' and not mutation)
                if is_query == (answer[0] == 'swap'):
                    res = 'HatEventer.MsgRegisterRes', (
                        ('failure', None) if answer[0] == 'failure' else
                        ('events', _events_to_sbs(answer[1])))
                    value = None if answer[0] == 'failure' else events
                else:
                    more = answer[0] == 'right' and answer[2]
                    res = 'HatEventer.MsgQueryRes', {
                        'events': ([] if answer[0] == 'failure' else
                                   _events_to_sbs(answer[1])),
                        'moreFollows': more}
                    value = common.QueryResult(events, more)
                if exp.state == 'open':
                    exp.answers[conv] = value
                await send(conv, True, *res, mutation)

            elif op[0] == 'register':
                ops.append((op, asyncio.ensure_future(operation(
                    client.register([_to_register_event(i) for i in op[1]],
                                    op[2]),
                    'register response' if op[2] else 'register'))))

            elif op[0] == 'query':
                ops.append((op, asyncio.ensure_future(operation(
                    client.query(gen.to_params(op[1])), 'query'))))

            elif op[0] == 'send':
                exp.violate(op[1][1] in _FOR_CLIENT)
                await server.send(server.conv(op[2]), op[3], op[1][1],
                                  bytes.fromhex(op[1][2]))

            elif op[0] == 'raw':
                exp.state = 'unknown'
                await server.write(bytes.fromhex(op[1]))
            await net.pause(delay)

        if case['settle']:
            await asyncio.sleep(10)
            if exp.must_close:
                ctx.label('closed by client')
                check(client.is_closed, 'connection with server violating '
                      'the protocol is not closed')
                check(all(i[1].done() for i in ops),
                      'requests are still waiting')
            if exp.state == 'open':
                check(client.is_open, 'connection is closed')
                check(len(server.acks) == (exp.acks), 'acknowledged %s, '
                      'expected %s', len(server.acks), exp.acks)
        server.link.cut(0, 0)
        await sim.within(60, client.wait_closed(), 'closing of client')
        if ops:
            await sim.within(10, asyncio.wait([i[1] for i in ops]),
                             'requests after connection is lost')
        answers = []
        for op, task in ops:
            kind, value = task.result()
            ctx.label(f'{op[0]} {kind}')
            if kind == 'ok' and (op[0] == 'query' or op[2]):
                answers.append(value)

        # connection could be closed before everything is processed
        complete = case['settle'] and exp.state == 'open'
        count = len(exp.events)
        if not case['cb']:
            check(not got, 'callback called')
            count = 0
        elif not complete:
            count = min(count, len(got))
        check(gen.same(got[:count], exp.events[:count]) and
              (exp.state == 'unknown' or len(got) <= count),
              'notified %r, expected %r', got, exp.events)
        count = len(exp.statuses)
        if not complete:
            count = min(count, len(statuses))
        check(statuses[:count] == exp.statuses[:count] and
              (exp.state == 'unknown' or len(statuses) <= count),
              'statuses %r, expected %r', statuses, exp.statuses)
        # results are exactly those sent
        rest = [gen.norm(i) for i in exp.answers.values()]
        for answer in answers:
            if gen.norm(answer) in rest:
                rest.remove(gen.norm(answer))
            else:
                check(exp.state == 'unknown', 'result %r, expected %r',
                      answer, list(exp.answers.values()))
        if complete:
            check(not rest, 'results %r are missing', rest)
        ctx.label('state ' + exp.state)
        ctx.nontrivial = exp.state == 'unknown' and bool(got or answers)

        await sim.within(60, srv.async_close(), 'closing')
        check(not loop.errors, 'unhandled errors %r', loop.errors)

    sim.run(main, {'net': case['net']})


# administration protocol

_conf = gen.one_of(gen.json_data, st.just({'version': 1}))

_adm_msg = st.tuples(
    st.just('msg'), gen.weighted(
        (2, st.tuples(st.just('get'))),
        (2, st.tuples(st.just('set'), gen.one_of(
            _conf.map(lambda i: __import__('json').dumps(i)), peer._json))),
        (1, peer.other)), peer.conv, st.booleans(), _rare)

_adm_attack = st.tuples(
    st.just('attack'), st.integers(0, 2), gen.weighted(
        (8, _adm_msg), (1, peer.raw), (1, _abort)))

_adm_good = gen.one_of(st.tuples(st.just('get')),
                       st.tuples(st.just('set'), _conf))


def adminer_strategy():
    step = st.tuples(gen.weighted((3, _adm_attack), (1, _adm_good)),
                     net.delay)
    return st.fixed_dictionaries({
        'net': net.conf, 'pong': st.booleans(),
        'fail': st.lists(st.booleans(), max_size=3),
        'cb_delay': st.lists(gen.timing([0, 0, 1, -1, 20]), max_size=3),
        'ops': gen.one_of(st.lists(step, min_size=1, max_size=8),
                          st.lists(step, min_size=6, max_size=20))})


def _adm_sbs(request):
    if request[0] == 'get':
        return 'HatEventAdminer.MsgGetLogConfReq', b''
    if request[0] == 'set':
        return 'HatEventAdminer.MsgSetLogConfReq', common.sbs_repo.encode(
            'HatEventAdminer.MsgSetLogConfReq', request[1])
    return request[1], bytes.fromhex(request[2])


def adminer_run(case, ctx):
    import json

    async def main(loop):
        net.track(loop)
        cb_delay = sim.Cyc(case['cb_delay'])
        fail = sim.Cyc(case['fail'], False)
        sets = []
        gets = 0

        async def get_cb():
            nonlocal gets
            gets += 1
            n = gets
            await net.pause(cb_delay.next())
            return ['conf', n]

        async def set_cb(conf):
            await net.pause(cb_delay.next())
            sets.append(conf)
            if fail.next():
                raise Exception('failed')

        server = await adminer.listen(ADDR, get_log_conf_cb=get_cb,
                                      set_log_conf_cb=set_cb)
        client = await adminer.connect(ADDR)
        tasks = []

        async def good(op):
            if op[0] == 'get':
                before = gets
                result = await client.get_log_conf()
                check(isinstance(result, list) and result[0] == 'conf' and
                      result[1] > before, 'result %r', result)
                return
            kind, result = await sim.outcome(client.set_log_conf(op[1]))
            check(kind == 'ok' and result is None or
                  kind == 'error' and
                  isinstance(result, adminer.AdminerError) and
                  str(result) == 'failed', 'result %r', result)
            check(any(gen.same(i, op[1]) for i in sets),
                  'configuration is not set')

        attackers = []
        current = {}
        exact = []  # configurations which have to be set

        def abort(attacker, graceful, delay):
            attacker.aborted = True
            if graceful:
                attacker.conn.close()
            else:
                attacker.link.cut(delay, delay)

        for op, delay in case['ops']:
            if op[0] == 'attack':
                attacker = current.get(op[1])
                if attacker is None or attacker.closed or attacker.aborted:
                    attacker = peer.Peer(case['pong'])
                    attacker.aborted = False
                    attacker.state = 'open'
                    attackers.append(attacker)
                    current[op[1]] = attacker
                    attacker.expected = 0
                    net.connecting.set(attacker)
                    await attacker.connect(ADDR)
                action = op[2]
                if action[0] == 'raw':
                    attacker.state = 'unknown'
                    await attacker.write(bytes.fromhex(action[1]))
                elif action[0] == 'abort':
                    abort(attacker, *action[1:])
                else:
                    _, request, conv, last, mutation = action
                    if (request[0] == 'other' and not mutation and
                            request[1] in _FOR_ADM_SERVER):
                        if attacker.state == 'open':
                            attacker.state = 'closed'
                    elif mutation or request[0] == 'other':
                        attacker.state = 'unknown'
                    if attacker.state == 'open':
                        attacker.expected += 1
                        if request[0] == 'set':
                            try:
                                exact.append((attacker,
                                              json.loads(request[1])))
                            except Exception:
                                pass
                    await attacker.send(attacker.conv(conv), last,
                                        *_adm_sbs(request), mutation)
            else:
                tasks.append(asyncio.ensure_future(good(op)))
            await net.pause(delay)

        await asyncio.sleep(15)
        for attacker in attackers:
            if not attacker.aborted and attacker.state == 'open':
                check(not attacker.closed and
                      len(attacker.msgs) == attacker.expected,
                      'peer obtained %r, expected %s responses',
                      attacker.msgs, attacker.expected)
            if not attacker.aborted and attacker.state == 'closed':
                ctx.label('closed by server')
                check(attacker.closed, 'peer violating the protocol is not '
                      'disconnected')
            check(all(i[0] in ('HatEventAdminer.MsgGetLogConfRes',
                               'HatEventAdminer.MsgSetLogConfRes')
                      for i in attacker.msgs), 'peer obtained %r',
                  attacker.msgs)
            abort(attacker, False, 0)
        for attacker, conf in exact:
            check(attacker.state != 'open' or attacker.aborted or
                  any(gen.same(i, conf) for i in sets),
                  'configuration %r is not set', conf)
        if tasks:
            await sim.within(60, asyncio.wait(tasks), 'requests')
        for task in tasks:
            task.result()
        check(server.is_open and client.is_open, 'closed')
        await sim.within(60, good(['get']), 'request')
        ctx.label('attackers', len(attackers))
        ctx.nontrivial = (len(tasks) > 0 and
                          any(i.state != 'open' for i in attackers))
        await sim.within(60, server.async_close(), 'closing')
        await sim.within(60, client.wait_closed(), 'closing of client')
        await asyncio.sleep(10)
        check(not loop.errors, 'unhandled errors %r', loop.errors)

    sim.run(main, {'net': case['net']})


_adm_answer = st.tuples(
    st.just('answer'), st.integers(0, 5), gen.weighted(
        (4, st.tuples(st.just('success'), gen.one_of(
            _conf.map(lambda i: __import__('json').dumps(i)), peer._json))),
        (1, st.tuples(st.just('error'), gen.text)),
        (1, st.tuples(st.just('swap'))), (1, peer.other)), _rare)

_adm_op = gen.weighted(
    (5, _adm_answer), (3, st.tuples(st.just('get'))),
    (3, st.tuples(st.just('set'), _conf)),
    (1, st.tuples(st.just('send'), peer.other, peer.conv, st.booleans())),
    (1, st.tuples(st.just('unknown'), peer.conv)), (1, peer.raw))


def adminer_client_strategy():
    step = st.tuples(_adm_op, net.delay)
    return st.fixed_dictionaries({
        'net': net.conf, 'settle': st.booleans(),
        'ops': gen.one_of(st.lists(step, max_size=8),
                          st.lists(step, min_size=6, max_size=20))})


def adminer_client_run(case, ctx):
    import json

    async def main(loop):
        net.track(loop)
        server = _MisServer()
        connected = asyncio.Event()

        def on_connection(conn):
            server.attach(conn)
            connected.set()

        srv = await drivers_net.listen(on_connection, ADDR)
        net.connecting.set(server)
        client = await adminer.connect(ADDR)
        await sim.within(10, connected.wait(), 'connecting')
        ops = []
        state = 'open'
        must_close = False
        expected = {}

        async def operation(op):
            if op[0] == 'get':
                return await sim.outcome(client.get_log_conf())
            return await sim.outcome(client.set_log_conf(op[1]))

        def send(conv, msg_type, data, mutation=None):
            return server.send(conv, True, msg_type,
                               common.sbs_repo.encode(msg_type, data),
                               mutation)

        for op, delay in case['ops']:
            if server.closed:
                break
            if op[0] in ('get', 'set'):
                ops.append((op, asyncio.ensure_future(operation(op))))
            elif op[0] == 'raw':
                state = 'unknown'
                await server.write(bytes.fromhex(op[1]))
            elif op[0] == 'send':
                state = 'unknown'
                await server.send(server.conv(op[2]), op[3], op[1][1],
                                  bytes.fromhex(op[1][2]))
            elif op[0] == 'unknown':
                if op[1][0] != 'fake' or op[1][1]:
                    # conversation of client's request
                    await send((False, 10**6),
                               'HatEventAdminer.MsgGetLogConfRes',
                               ('success', '[]'))
            elif op[0] == 'answer':
                if not server.requests:
                    await net.pause(5)
                if not server.requests:
                    continue
                req, conv, data = server.requests.pop(
                    op[1] % len(server.requests))
                is_get = req == 'HatEventAdminer.MsgGetLogConfReq'
                answer, mutation = op[2], op[3]
                if answer[0] == 'other':
                    must_close |= (state == 'open' and
                                   answer[1] in _FOR_ADM_CLIENT)
                    state = 'unknown'
                    await server.send(conv, True, answer[1],
                                      bytes.fromhex(answer[2]))
                    continue
                if mutation or answer[0] == 'swap':
                    must_close |= state == 'open' and not mutation
                    state = 'unknown'
                if is_get == (answer[0] != 'swap'):
                    res = 'HatEventAdminer.MsgGetLogConfRes'
                else:
                    res = 'HatEventAdminer.MsgSetLogConfRes'
                if answer[0] == 'error':
                    value = ['error', answer[1]]
                elif res == 'HatEventAdminer.MsgGetLogConfRes':
                    value = ['success', answer[1] if answer[0] != 'swap'
                             else '[]']
                else:
                    value = ['success', None]
                if state == 'open':
                    expected[conv] = is_get, value
                await send(conv, res, tuple(value), mutation)
            await net.pause(delay)

        if case['settle']:
            await asyncio.sleep(10)
            check(state == 'unknown' or client.is_open,
                  'connection is closed')
            if must_close:
                ctx.label('closed by client')
                check(client.is_closed, 'connection with server violating '
                      'the protocol is not closed')
                check(all(i[1].done() for i in ops),
                      'requests are still waiting')
        server.link.cut(0, 0)
        await sim.within(60, client.wait_closed(), 'closing of client')
        if ops:
            await sim.within(10, asyncio.wait([i[1] for i in ops]),
                             'requests after connection is lost')
        rest = []
        for is_get, value in expected.values():
            if value[0] == 'success' and is_get:
                try:
                    value = ['success', json.loads(value[1])]
                except Exception:
                    value = ['exception']
            rest.append([is_get, *value])
        for op, task in ops:
            kind, value = task.result()
            is_get = op[0] == 'get'
            ctx.label(f'{op[0]} {kind}')
            if kind == 'ok':
                check(is_get or value is None, 'result %r', value)
                result = [is_get, 'success', value]
            elif isinstance(value, adminer.AdminerError):
                result = [is_get, 'error', str(value)]
            elif isinstance(value, (ConnectionError, aio.QueueClosedError)):
                continue
            else:
                # response is not valid JSON
                check(is_get, 'error %r', value)
                result = [is_get, 'exception']
            for i in rest:
                if gen.same(i, result):
                    rest.remove(i)
                    break
            else:
                check(state == 'unknown', 'result %r, expected %r', result,
                      rest)
        if case['settle'] and state == 'open':
            check(not rest, 'results %r are missing', rest)
        ctx.nontrivial = bool(expected) and state == 'unknown'
        await sim.within(60, srv.async_close(), 'closing')
        check(not loop.errors, 'unhandled errors %r', loop.errors)

    sim.run(main, {'net': case['net']})


SUBS = [
    Sub('server', server_strategy, server_run, 2000, 60000,
        'cases with a peer violating the protocol'),
    Sub('client', client_strategy, client_run, 4000, 80000,
        'cases with something delivered before the protocol is violated'),
    Sub('adminer', adminer_strategy, adminer_run, 1200, 30000,
        'cases with requests next to a peer violating the protocol'),
    Sub('adminer_client', adminer_client_strategy, adminer_client_run, 3000,
        40000, 'cases with responses before the protocol is violated')]
