"""Administration protocol"""
TECHNIQUE = ('stateful property-based testing with a simulated network: '
             'generated concurrent requests, handler results, failures, '
             'cancellations and connection losses against the script of '
             'the handlers, and set/get histories of logging configurations '
             'against a stored value model')
NOTE = ('Logging configurations are applied to loggers of the testing '
        'process.')

import asyncio
import logging
import logging.config

from hypothesis import strategies as st

from vlib import gen, net, sim
from vlib.core import Sub, check

from hat.event import adminer
import hat.event.server.adminer_server

LOST_TIMEOUT = 60

_index = st.integers(0, 2)
_handler_delay = gen.timing([0, 0, 0, -1, -3, 1, 5, 50, 3000])

_result = st.fixed_dictionaries({
    'value': gen.json_data,
    'error': gen.opt(3, gen.text),
    'delay': _handler_delay,
    'async': st.booleans()})

_op = gen.weighted(
    (6, st.tuples(st.just('get'), _index, st.booleans())),
    (6, st.tuples(st.just('set'), _index, _result, st.booleans())),
    (3, st.tuples(st.just('cancel'), st.integers(0, 5))),
    (1, net.fault(_index)),
    (1, st.tuples(st.just('connect'), _index)))


def strategy():
    step = st.tuples(_op, net.delay)
    return st.fixed_dictionaries({
        'net': net.conf,
        'handlers': st.sampled_from(['both', 'both', 'both', 'both', 'both',
                                     'get', 'set', 'none']),
        'gets': st.lists(_result, min_size=1, max_size=6),
        'clients': st.integers(1, 3),
        'ops': gen.one_of(st.lists(step, min_size=1, max_size=8),
                          st.lists(step, min_size=6, max_size=20)),
        'end': st.sampled_from(['drain', 'drain', 'server', 'clients'])})


class _Conn:

    def __init__(self):
        self.client = None
        self.link = None
        self.lost_at = None
        self.requests = []

    def lost(self):
        if self.lost_at is None:
            self.lost_at = asyncio.get_running_loop().time()


class _Request:

    def __init__(self, n, conn, spec, time):
        self.n = n
        self.conn = conn
        self.spec = spec  # None for get
        self.time = time
        self.kind = 'pending'
        self.value = None
        self.done_at = None
        self.task = None
        self.after_loss = conn.lost_at is not None


def run(case, ctx):
    async def main(loop):
        net.track(loop)
        conns = []
        current = {}
        requests = []
        gets = []  # results of get handler
        sets = []  # numbers of handled set requests

        def on_get():
            spec = case['gets'][len(gets) % len(case['gets'])]
            k = len(gets)
            gets.append(spec)
            return finish(spec, k, [k, spec['value']])

        def on_set(conf):
            check(isinstance(conf, list) and len(conf) == 2 and
                  type(conf[0]) is int and conf[0] < len(requests),
                  'set handler got %r', conf)
            request = requests[conf[0]]
            check(request.spec is not None and
                  gen.same(conf[1], request.spec['value']),
                  'set handler got %r instead of %r', conf,
                  request.spec['value'])
            sets.append(request.n)
            return finish(request.spec, request.n, None)

        def finish(spec, n, value):
            if spec['async']:
                return later(spec, n, value)
            if spec['error'] is not None:
                raise Exception(f'{n} {spec["error"]}')
            return value

        async def later(spec, n, value):
            await net.pause(spec['delay'])
            if spec['error'] is not None:
                raise Exception(f'{n} {spec["error"]}')
            return value

        kwargs = {}
        if case['handlers'] in ('both', 'get'):
            kwargs['get_log_conf_cb'] = on_get
        if case['handlers'] in ('both', 'set'):
            kwargs['set_log_conf_cb'] = on_set
        server = await adminer.listen(net.ADDR, **kwargs)

        async def connect(index):
            index %= case['clients']
            if index in current and current[index].lost_at is None:
                return
            conn = _Conn()
            net.connecting.set(conn)
            conn.client = await sim.within(100, adminer.connect(net.ADDR),
                                           'connect')
            conns.append(conn)
            current[index] = conn

        async def call(request):
            client = request.conn.client
            try:
                request.kind, request.value = await sim.outcome(
                    client.get_log_conf() if request.spec is None else
                    client.set_log_conf([request.n, request.spec['value']]))
            except asyncio.CancelledError:
                request.kind = 'cancelled'
                raise
            finally:
                request.done_at = loop.time()

        def create(conn, spec):
            request = _Request(len(requests), conn, spec, loop.time())
            requests.append(request)
            conn.requests.append(request)
            return request

        for i in range(case['clients']):
            await connect(i)

        tasks = []
        for op, delay in case['ops']:
            if op[0] in ('get', 'set'):
                conn = current[op[1] % case['clients']]
                request = create(conn, op[2] if op[0] == 'set' else None)
                request.task = asyncio.ensure_future(call(request))
                tasks.append(request.task)
                await asyncio.sleep(0)
                if op[-1]:
                    await sim.within(200, asyncio.wait([request.task]),
                                     'request')

            elif op[0] == 'cancel':
                pending = [i for i in requests if i.kind == 'pending']
                if pending:
                    pending[op[1] % len(pending)].task.cancel()
                    ctx.label('cancelled')

            elif op[0] == 'connect':
                await connect(op[1])

            else:
                conn = current[op[1] % case['clients']]
                if conn.lost_at is None:
                    conn.lost()
                    ctx.label(f'connection {op[0]}')
                    if op[0] == 'close':
                        tasks.append(asyncio.ensure_future(
                            conn.client.async_close()))
                    else:
                        net.break_link(conn.link, op)
            await net.pause(delay)

        if case['end'] == 'server':
            for conn in conns:
                conn.lost()
            await sim.within(100, server.async_close(), 'closing server')
        elif case['end'] == 'clients':
            for conn in conns:
                conn.lost()
                await sim.within(100, conn.client.async_close(),
                                 'closing client')

        if tasks:
            await sim.within(1000, asyncio.wait(tasks), 'requests')
        await asyncio.sleep(LOST_TIMEOUT)

        # later calls
        for conn in conns:
            for spec in [None, {'value': 1, 'error': None, 'delay': 0,
                                'async': False}]:
                await sim.within(100, call(create(conn, spec)),
                                 'later request')

        for conn in conns:
            _verify(case, conn, gets, sets)
        count = sum(1 for i in requests if i.kind == 'ok')
        ctx.label('answered', count)
        ctx.label('errors', sum(1 for i in requests
                                if isinstance(i.value,
                                              adminer.AdminerError)))
        ctx.nontrivial = len(case['ops']) > 1 and count > 2

        if case['end'] != 'server':
            check(server.is_open, 'server is closed')
        await sim.within(100, server.async_close(), 'closing server')
        for conn in conns:
            await sim.within(100, conn.client.wait_closed(), 'closing client')
        check(not loop.errors, 'unhandled errors %r', loop.errors)

    sim.run(main, {'net': case['net']})


def _verify(case, conn, gets, sets):
    last_get = -1
    for request in conn.requests:
        spec = request.spec
        if request.kind == 'cancelled':
            continue
        check(request.kind in ('ok', 'error'), 'request is still waiting')
        value = request.value

        if request.kind == 'error' and not isinstance(value,
                                                      adminer.AdminerError):
            check(isinstance(value, ConnectionError), 'request failed with '
                  '%r', value)
            check(conn.lost_at is not None and
                  request.done_at >= conn.lost_at,
                  'connection error on established connection')
            check(request.done_at - max(conn.lost_at, request.time) <=
                  LOST_TIMEOUT, 'late connection error')
            continue
        check(not request.after_loss or
              request.time - conn.lost_at < LOST_TIMEOUT,
              'answer without connection')

        supported = case['handlers'] in ('both', 'get' if spec is None
                                         else 'set')
        if not supported:
            check(request.kind == 'error', 'result without handler: %r',
                  value)
        elif spec is None:
            # requests of a connection are handled in order
            if request.kind == 'error':
                k = int(str(value).partition(' ')[0])
                check(k < len(gets) and
                      str(value) == f'{k} {gets[k]["error"]}',
                      'get failed with %r', value)
            else:
                check(isinstance(value, list) and len(value) == 2 and
                      type(value[0]) is int and value[0] < len(gets),
                      'get result %r', value)
                k = value[0]
                check(gets[k]['error'] is None and
                      gen.same(value[1], gets[k]['value']),
                      'get result %r, expected %r', value, gets[k])
            check(k > last_get, 'result of other request')
            last_get = k
        else:
            check(request.n in sets, 'answer to request that was not handled')
            if spec['error'] is not None:
                check(request.kind == 'error' and
                      str(value) == f'{request.n} {spec["error"]}',
                      'set result %r, expected error %r', value,
                      spec['error'])
            else:
                check(request.kind == 'ok' and value is None,
                      'set result %r', value)

    if case['handlers'] in ('both', 'set'):
        sent = [i.n for i in conn.requests if i.spec is not None]
        handled = [i for i in sets if i in sent]
        # abandoned requests do not have to be sent
        sent = [i.n for i in conn.requests
                if i.n in sent and (i.kind != 'cancelled' or i.n in handled)]
        if conn.lost_at is None:
            check(handled == sent, 'handled %r, sent %r', handled, sent)
        else:
            check(handled == sent[:len(handled)], 'handled %r, sent %r',
                  handled, sent)


# logging configuration

_levels = st.sampled_from(['DEBUG', 'INFO', 'WARNING', 'ERROR'])
_valid = st.fixed_dictionaries({
    'version': st.just(1),
    'disable_existing_loggers': st.just(False),
    'formatters': st.dictionaries(
        st.sampled_from(['f1', 'č']),
        st.fixed_dictionaries({'format': st.sampled_from(
            ['%(message)s', 'x %(levelname)s'])}), max_size=2),
    'handlers': st.dictionaries(
        st.sampled_from(['h1', 'h2']),
        st.fixed_dictionaries({'class': st.just('logging.NullHandler'),
                               'level': _levels}), max_size=2),
    'loggers': st.dictionaries(
        st.sampled_from(['verif.a', 'verif.b']),
        st.fixed_dictionaries({'level': _levels,
                               'propagate': st.booleans()}), max_size=2)})
_invalid = gen.one_of(
    st.just({}), st.just({'version': 2}), st.just(None), st.just([1]),
    st.just({'version': 1, 'disable_existing_loggers': False,
             'handlers': {'h': {'class': 'verif.missing.Handler'}}}),
    st.just({'version': 1, 'disable_existing_loggers': False,
             'loggers': {'verif.a': {'level': 'WRONG'}}}),
    st.just({'version': 1, 'disable_existing_loggers': False,
             'loggers': {'verif.a': {'handlers': ['missing']}}}))

_kinds = {'bool': bool, 'int': int, 'float': float}
_log_op = gen.weighted(
    (3, st.tuples(st.just('get'), _index)),
    (4, st.tuples(st.just('set'), _index, _valid)),
    # equal values of other types
    (2, st.tuples(st.just('equal'), _index, st.sampled_from(
        list(_kinds)))),
    (2, st.tuples(st.just('invalid'), _index, _invalid)))


def _retyped(value, kind):
    if isinstance(value, dict):
        return {k: _retyped(v, kind) for k, v in value.items()}
    if isinstance(value, list):
        return [_retyped(i, kind) for i in value]
    if isinstance(value, (bool, int, float)) and value in (0, 1):
        return kind(value)
    return value


def log_strategy():
    return st.fixed_dictionaries({
        'net': net.conf,
        'initial': gen.one_of(st.none(), _valid, gen.json_data),
        'ops': st.lists(_log_op, min_size=1, max_size=10)})


def log_run(case, ctx):
    async def main(loop):
        server = await hat.event.server.adminer_server.create_adminer_server(
            net.ADDR, case['initial'])
        clients = [await adminer.connect(net.ADDR) for _ in range(3)]
        conf = case['initial']
        for op in case['ops']:
            client = clients[op[1]]
            if op[0] == 'get':
                pass
            elif op[0] == 'equal':
                value = _retyped(conf, _kinds[op[2]])
                kind, error = await sim.outcome(sim.within(
                    100, client.set_log_conf(value), 'set'))
                if kind == 'ok':
                    conf = value
                    ctx.label('equal set')
                else:
                    check(isinstance(error, adminer.AdminerError),
                          'setting of %r: %s %r', value, kind, error)
            elif op[0] == 'set':
                await sim.within(100, client.set_log_conf(op[2]), 'set')
                conf = op[2]
                for name, i in conf['loggers'].items():
                    logger = logging.getLogger(name)
                    check(logging.getLevelName(logger.level) == i['level'] and
                          logger.propagate == i['propagate'],
                          'configuration is not applied')
                ctx.label('set')
                ctx.nontrivial = True
            else:
                kind, value = await sim.outcome(sim.within(
                    100, client.set_log_conf(op[2]), 'set'))
                check(kind == 'error' and
                      isinstance(value, adminer.AdminerError),
                      'setting of %r: %s %r', op[2], kind, value)
                ctx.label('rejected')
            for client in clients[op[1]], clients[op[1] - 1]:
                result = await sim.within(100, client.get_log_conf(), 'get')
                check(gen.same(result, conf), 'get result %r, expected %r',
                      result, conf)
        for client in clients:
            check(client.is_open, 'client is closed')
        await sim.within(100, server.async_close(), 'closing server')

    try:
        sim.run(main, {'net': case['net']})
    finally:
        for name in ('verif.a', 'verif.b'):
            logging.getLogger(name).setLevel(logging.NOTSET)


SUBS = [
    Sub('requests', strategy, run, 2000, 50000,
        'cases with more than two answered requests'),
    Sub('log conf', log_strategy, log_run, 600, 10000,
        'cases with successfully set configuration')]
