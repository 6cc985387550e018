"""Requests and responses of eventer connections"""
TECHNIQUE = ('stateful property-based testing with a simulated network: '
             'generated concurrent requests, handler results and delays, '
             'cancellations and connection losses against the script of '
             'the handlers')
NOTE = ('Server and clients run over an in-memory network with generated '
        'latencies, chunking and connection failures; each request carries '
        'unique content so that answers can not be confused.')

import asyncio

from hypothesis import strategies as st

from vlib import gen, net, sim
from vlib.core import Sub, check

from hat.event import common
from hat.event import eventer

# lost connection is detected by missing ping responses
LOST_TIMEOUT = 60

_index = st.integers(0, 2)
_handler_delay = gen.timing([0, 0, 0, -1, -3, 1, 5, 50, 3000])

_register = st.fixed_dictionaries({
    'kind': st.just('register'),
    'response': st.sampled_from([True, True, True, False]),
    'events': st.lists(gen.register_event, max_size=3),
    'result': gen.weighted((1, st.none()), (1, st.just([])),
                           (3, st.lists(gen.event, max_size=3))),
    'delay': _handler_delay,
    'async': st.booleans()})

_query = st.fixed_dictionaries({
    'kind': st.just('query'),
    'params': gen.params,
    'result': st.lists(gen.event, max_size=3),
    'more': st.booleans(),
    'delay': _handler_delay,
    'async': st.booleans()})

_request = gen.one_of(_register, _query)

_op = gen.weighted(
    (10, st.tuples(st.just('request'), _index, _request, st.booleans())),
    (2, st.tuples(st.just('cancel'), st.integers(0, 5))),
    (1, st.tuples(st.just('notify'), st.lists(gen.event, max_size=2))),
    (1, st.tuples(st.just('status'), st.sampled_from(
        ['STANDBY', 'OPERATIONAL', 'STOPPING']))),
    (1, net.fault(_index)),
    (1, st.tuples(st.just('raise'), _index, st.sampled_from(
        ['register', 'query', 'silent register']))),
    (1, st.tuples(st.just('connect'), _index)))


def strategy():
    step = st.tuples(_op, net.delay)
    return st.fixed_dictionaries({
        'net': net.conf,
        'handlers': gen.weighted((8, st.just(True)), (1, st.just(False))),
        'client_delay': gen.weighted(
            (2, st.just([])), (1, st.lists(net.delay, max_size=3))),
        'clients': st.integers(1, 3),
        'ops': gen.one_of(st.lists(step, min_size=1, max_size=8),
                          st.lists(step, min_size=6, max_size=20)),
        'end': st.sampled_from(['drain', 'drain', 'server', 'clients'])})


def great_strategy():
    """Many outstanding requests of many clients and great messages"""
    times = st.sampled_from([1, 1, 1, 1100, 3000, 9000])
    request = st.tuples(
        st.just('request'), st.integers(0, 60), _request, st.booleans(),
        st.sampled_from([1, 1, 40, 300]), times, times)
    step = st.tuples(gen.weighted(
        (8, request), (1, st.tuples(st.just('cancel'), st.integers(0, 300))),
        (1, net.fault(st.integers(0, 60)))), net.delay)
    return st.fixed_dictionaries({
        'net': net.conf,
        'clients': st.sampled_from([1, 2, 40]),
        'ops': st.lists(step, min_size=1, max_size=5),
        'end': st.sampled_from(['drain', 'drain', 'server', 'clients'])})


def great_run(case, ctx):
    ops = []
    nontrivial = case['clients'] > 10
    for op, delay in case['ops']:
        if op[0] != 'request':
            ops.append([op, delay])
            continue
        _, index, spec, wait, count, events, results = op
        spec = {**spec, 'result': (
            spec['result'][:1] * (results if count == 1 else 1)
            if spec['result'] else spec['result'])}
        if spec['kind'] == 'register':
            spec['events'] = (spec['events'][:1] *
                              (events if count == 1 else 1))
        if count > 1:
            # together they do not last long
            spec['delay'] = min(spec['delay'], 5)
        ops.extend([['request', index + i * (case['clients'] > 10), spec,
                     False], 0] for i in range(count - 1))
        ops.append([['request', index, spec, wait and count == 1], delay])
        nontrivial = nontrivial or count > 30 or len(
            spec['result'] or []) > 1000 or len(
                spec.get('events', [])) > 1000
    run({**case, 'ops': ops, 'handlers': True, 'client_delay': []}, ctx)
    ctx.nontrivial = ctx.nontrivial and nontrivial


class _Conn:

    def __init__(self, name, index):
        self.name = name
        self.index = index
        self.client = None
        self.link = None
        self.lost_at = None
        self.sent = []  # requests in order of sending
        self.handled = []  # handled requests
        self.info = None

    def lost(self):
        if self.lost_at is None:
            self.lost_at = asyncio.get_running_loop().time()


class _Request:

    def __init__(self, n, conn, spec, time):
        self.n = n
        self.conn = conn
        self.spec = spec
        self.time = time
        self.kind = 'pending'
        self.result = None
        self.done_at = None
        self.task = None
        self.after_loss = conn.lost_at is not None

        # content is unique
        if spec['kind'] == 'register':
            marker = {'type': ['n', str(n)], 'st': None, 'payload': None}
            self.content = [gen.to_register_event(i)
                            for i in [marker, *spec['events']]]
        else:
            params = gen.to_params(spec['params'])
            if spec['params']['q'] == 'server':
                params = params._replace(last_event_id=common.EventId(
                    n, n, n))
            else:
                params = params._replace(
                    event_types=[('n', str(n)), *(params.event_types or [])])
            self.content = params


def _content_n(content):
    if isinstance(content, common.QueryServerParams):
        return content.last_event_id.server
    if isinstance(content, (common.QueryLatestParams,
                            common.QueryTimeseriesParams)):
        return int(next(iter(content.event_types))[1])
    return int(next(iter(content)).type[1])


class _Raise(Exception):
    pass


def run(case, ctx):
    async def main(loop):
        conns = []
        by_name = {}
        current = {}
        requests = {}
        net.track(loop)

        def handle(kind, info, content):
            conn = by_name.get(info.client_name)
            check(conn is not None, 'invalid client %r', info)
            if conn.info is None:
                conn.info = info
            check(gen.same(conn.info.id, info.id), 'connection id changed')
            n = _content_n(content)
            request = requests[n]
            check(request.conn is conn, 'request of other connection')
            check(request.spec['kind'] == kind, 'invalid handler')
            conn.handled.append(request)
            check(gen.same(content, request.content),
                  '%s handler got %r instead of %r', kind, content,
                  request.content)
            return request

        def result(request):
            spec = request.spec
            if spec.get('raise'):
                request.conn.lost()
                raise _Raise('injected')
            if spec['kind'] == 'query':
                return common.QueryResult(
                    [gen.to_event(i) for i in spec['result']], spec['more'])
            if spec['result'] is None:
                return None
            return [gen.to_event(i) for i in spec['result']]

        def handler(kind):
            def cb(info, content):
                request = handle(kind, info, content)
                if not request.spec['async']:
                    return result(request)
                return later(request)
            return cb

        async def later(request):
            await net.pause(request.spec['delay'])
            return result(request)

        handlers = ({'register_cb': handler('register'),
                     'query_cb': handler('query')}
                    if case['handlers'] else {})
        server = await eventer.listen(net.ADDR, **handlers)
        client_delay = sim.Cyc(case['client_delay'])

        async def client_cb(client, arg):
            await net.pause(client_delay.next())

        async def connect(index):
            index %= case['clients']
            if index in current and current[index].lost_at is None:
                return
            conn = _Conn(f'c{len(conns)}', index)
            net.connecting.set(conn)
            by_name[conn.name] = conn
            conn.client = await sim.within(100, eventer.connect(
                net.ADDR, conn.name, subscriptions=[('*', )],
                status_cb=client_cb, events_cb=client_cb), 'connect')
            conns.append(conn)
            current[index] = conn

        async def call(request):
            client = request.conn.client
            try:
                if request.spec['kind'] == 'register':
                    kind, value = await sim.outcome(client.register(
                        request.content,
                        with_response=request.spec['response']))
                else:
                    kind, value = await sim.outcome(client.query(
                        request.content))
            except asyncio.CancelledError:
                request.kind = 'cancelled'
                raise
            finally:
                request.done_at = loop.time()
            request.kind = kind
            request.result = value

        for i in range(case['clients']):
            await connect(i)

        tasks = []

        async def request_op(index, spec, wait):
            conn = current[index % case['clients']]
            n = len(requests) + 1
            request = requests[n] = _Request(n, conn, spec, loop.time())
            conn.sent.append(request)
            request.task = asyncio.ensure_future(call(request))
            tasks.append(request.task)
            await asyncio.sleep(0)
            if wait:
                await sim.within(200, asyncio.wait([request.task]),
                                 'request')

        for op, delay in case['ops']:
            if op[0] == 'request':
                await request_op(*op[1:])

            elif op[0] == 'raise':
                # failure of handler ends that connection only
                if case['handlers']:
                    spec = {'kind': 'register',
                            'response': op[2] == 'register', 'events': [],
                            'result': None}
                    if op[2] == 'query':
                        spec = {'kind': 'query', 'params': {
                            'q': 'latest', 'types': None},
                            'result': [], 'more': False}
                    await request_op(op[1], {**spec, 'delay': 1,
                                             'async': True, 'raise': True},
                                     False)
                    ctx.label(f'failure of {op[2]} handler')

            elif op[0] == 'cancel':
                pending = [i for i in requests.values()
                           if i.kind == 'pending']
                if pending:
                    pending[op[1] % len(pending)].task.cancel()
                    ctx.label('cancelled')

            elif op[0] == 'notify':
                await sim.within(100, server.notify_events(
                    [gen.to_event(i) for i in op[1]], False), 'notify')

            elif op[0] == 'status':
                await sim.within(100, server.set_status(
                    common.Status[op[1]]), 'status')

            elif op[0] == 'connect':
                await connect(op[1])

            else:
                conn = current[op[1] % case['clients']]
                if conn.lost_at is None:
                    conn.lost()
                    ctx.label(f'connection {op[0]}')
                    if op[0] == 'close':
                        tasks.append(asyncio.ensure_future(
                            conn.client.async_close()))
                    else:
                        net.break_link(conn.link, op)
            await net.pause(delay)

        if case['end'] == 'server':
            for conn in conns:
                conn.lost()
            await sim.within(100, server.async_close(), 'closing server')
        elif case['end'] == 'clients':
            for conn in conns:
                conn.lost()
                await sim.within(100, conn.client.async_close(),
                                 'closing client')

        if tasks:
            await sim.within(1000, asyncio.wait(tasks), 'requests')
        await asyncio.sleep(LOST_TIMEOUT)

        # later calls
        for conn in conns:
            spec = {'kind': 'query', 'params': {'q': 'latest', 'types': None},
                    'result': [], 'more': False, 'delay': 0, 'async': False}
            for spec in [spec, {'kind': 'register', 'response': True,
                                'events': [], 'result': [], 'delay': 0,
                                'async': False}]:
                n = len(requests) + 1
                request = requests[n] = _Request(n, conn, spec, loop.time())
                conn.sent.append(request)
                await sim.within(100, call(request), 'later request')

        for request in requests.values():
            _verify_outcome(case, ctx, request)
        for conn in conns:
            _verify_handled(case, conn)

        count = sum(1 for i in requests.values() if i.kind == 'ok')
        ctx.label('answered', count)
        ctx.label('lost', sum(1 for i in requests.values()
                              if i.kind == 'error'))
        ctx.nontrivial = len(case['ops']) > 1 and count > 2

        if case['end'] != 'server':
            check(server.is_open, 'server is closed')
        await sim.within(100, server.async_close(), 'closing server')
        for conn in conns:
            await sim.within(100, conn.client.wait_closed(),
                             'closing clients')
        check(not loop.errors, 'unhandled errors %r', loop.errors)

    sim.run(main, {'net': case['net']})


def _verify_outcome(case, ctx, request):
    conn = request.conn
    spec = request.spec
    if request.kind == 'cancelled':
        return
    check(request.kind in ('ok', 'error'), 'request is still waiting')

    if request.kind == 'error':
        check(isinstance(request.result, ConnectionError),
              'request failed with %r', request.result)
        check(conn.lost_at is not None and
              request.done_at >= conn.lost_at,
              'connection error on established connection')
        check(request.done_at - max(conn.lost_at, request.time) <=
              LOST_TIMEOUT,
              'connection error reported %s s after connection was lost',
              request.done_at - conn.lost_at)
        return

    if spec['kind'] == 'register' and not spec['response']:
        check(request.result is None, 'result without response: %r',
              request.result)
        return

    check(not request.after_loss or request.time - conn.lost_at <
          LOST_TIMEOUT, 'answer without connection')
    if not case['handlers']:
        # default answers
        if spec['kind'] == 'register':
            check(request.result is None, 'result without handler: %r',
                  request.result)
        else:
            events, more = gen.result_of(request.result)
            check(not events and not more, 'result without handler: %r',
                  request.result)
        return

    check(request in conn.handled, 'answer of request that was not handled')
    if spec['kind'] == 'query':
        events, more = gen.result_of(request.result)
        check(gen.same(events, [gen.to_event(i) for i in spec['result']]) and
              more == spec['more'], 'query result %r, expected %r %r',
              request.result, spec['result'], spec['more'])
    elif spec['result'] is None:
        check(request.result is None, 'result of failed registration: %r',
              request.result)
    else:
        check(request.result is not None, 'no result of registration')
        check(gen.same(gen.events_of(request.result),
                       [gen.to_event(i) for i in spec['result']]),
              'registration result %r, expected %r', request.result,
              spec['result'])


def _verify_handled(case, conn):
    if not case['handlers']:
        return
    handled = [i.n for i in conn.handled]
    # abandoned requests do not have to be sent
    sent = [i.n for i in conn.sent
            if i.kind != 'cancelled' or i.n in handled]
    if conn.lost_at is None:
        check(handled == sent, 'connection %s: handled requests %r, sent %r',
              conn.name, handled, sent)
    else:
        check(handled == sent[:len(handled)],
              'connection %s: handled requests %r, sent %r', conn.name,
              handled, sent)


SUBS = [
    Sub('requests', strategy, run, 2400, 60000,
        'cases with more than two answered requests'),
    Sub('great', great_strategy, great_run, 64, 1600,
        'cases with more than two answered requests, with more than 10 '
        'clients, 30 concurrent requests or 1000 events')]
