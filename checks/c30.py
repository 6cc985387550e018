"""Event manager command line"""
TECHNIQUE = ('property-based testing: generated command lines, input files '
             'and scripted server behaviour against an independent model of '
             'options, requests and printed output')
NOTE = ('Commands are executed in the checking process with replaced '
        'arguments and standard streams, connected over the loopback network '
        'to a real eventer server. Not implemented command `server` is not '
        'covered.')

import asyncio
import contextlib
import io
import json as std_json
import socket
import sys
import threading
import time

from hypothesis import strategies as st

from vlib import gen, model
from vlib.core import Sub, check

from hat import json
from hat.drivers import tcp
from hat.event import common
from hat.event import eventer
import hat.event.manager.main

TIMEOUT = 60

_word = st.one_of(st.sampled_from(['', 'manager', 'a b', '=', 'č']), gen.text)
_segment = st.one_of(st.sampled_from(['a', 'b', '', ' ', 'č']),
                     gen.text.map(lambda i: i.replace('/', '')))
_event_type = st.lists(_segment, min_size=1, max_size=4).map(
    lambda i: ['x' + i[0] if i[0].startswith('-') else i[0], *i[1:]])
_query_type = st.builds(
    lambda head, tail: [*head, *tail] if head or tail else ['*'],
    st.lists(st.sampled_from(['a', 'b', '?', '', 'č']), max_size=3),
    st.sampled_from([[], [], ['*']]))
_time = st.one_of(
    st.just('now'),
    st.tuples(st.one_of(st.integers(-10, 10), st.integers(-2**31, 2**32)),
              gen.us).map(list))
_opt_time = gen.opt(1, _time)
_id = st.tuples(gen.uint, gen.uint, gen.uint).map(list)

_connection = st.fixed_dictionaries({
    'host': st.sampled_from([None, '127.0.0.1', 'localhost']),
    'name': gen.opt(1, _word), 'token': gen.opt(1, _word),
    'accept': st.sampled_from([True] * 7 + [False]),
    'listening': st.sampled_from([True] * 15 + [False])})

_event = st.fixed_dictionaries({
    'id': _id, 'type': st.lists(gen.segment, max_size=3),
    't': gen.timestamp, 'st': st.none() | gen.timestamp,
    'payload': gen.payload})

# TOML supports neither null nor integers outside of 64 bits
_toml_value = st.recursive(
    st.one_of(st.booleans(), st.integers(-2**63, 2**63 - 1), gen.text),
    lambda c: st.lists(c, max_size=3), max_leaves=4)


def register_strategy():
    return st.fixed_dictionaries({
        'connection': _connection,
        'type': _event_type,
        'time': _opt_time,
        'payload_type': st.sampled_from([None, None, 'json', 'yaml', 'toml',
                                         'binary', 'none']),
        'binary_type': gen.opt(1, _word),
        'source': st.sampled_from(['default', '-', 'file', 'file']),
        'suffix': st.sampled_from(['.json', '.yaml', '.yml', '.toml', '.bin',
                                   '']),
        'json': gen.json_data,
        'toml': st.dictionaries(gen.text, _toml_value, max_size=3),
        'binary': st.binary(max_size=8).map(bytes.hex),
        'result': st.sampled_from(['ok', 'ok', 'ok', 'none', 'raise'])})


def query_strategy():
    types = st.none() | st.lists(_query_type, max_size=3)
    maximum = gen.opt(1, st.integers(0, 10000))
    last = gen.opt(1, _id)
    return st.fixed_dictionaries({
        'connection': _connection,
        'params': gen.one_of(
            st.fixed_dictionaries({'q': st.just('latest'), 'types': types}),
            st.fixed_dictionaries({
                'q': st.just('timeseries'), 'types': types,
                't_from': _opt_time, 't_to': _opt_time,
                'st_from': _opt_time, 'st_to': _opt_time,
                'order': st.sampled_from([None, 'ASCENDING', 'DESCENDING']),
                'by': st.sampled_from([None, 'TIMESTAMP',
                                       'SOURCE_TIMESTAMP']),
                'max': maximum, 'last': last}),
            st.fixed_dictionaries({
                'q': st.just('server'), 'server': gen.uint,
                'persisted': st.booleans(), 'max': maximum, 'last': last})),
        'events': st.lists(_event, max_size=3),
        'more': st.booleans(),
        'result': st.sampled_from(['ok', 'ok', 'ok', 'ok', 'raise'])})


def subscribe_strategy():
    event = st.fixed_dictionaries({
        'id': st.tuples(st.integers(0, 3), gen.uint, gen.uint).map(list),
        'type': st.lists(st.sampled_from(['a', 'b', '', 'č']), max_size=3),
        't': gen.timestamp, 'st': st.none() | gen.timestamp,
        'payload': gen.payload})
    return st.fixed_dictionaries({
        'connection': _connection,
        'types': gen.one_of(st.just([]), st.just([]),
                            st.lists(_query_type, max_size=3)),
        'server': st.sampled_from([None, None, None, 0, 1, 2]),
        'persisted': st.booleans(),
        'notify': st.lists(st.tuples(st.lists(event, max_size=3),
                                     st.booleans()), max_size=5)})


# server thread

class _Host:
    """Loop with servers in background thread"""

    def __init__(self):
        self._loop = None
        ready = threading.Event()

        def run():
            self._loop = asyncio.new_event_loop()
            asyncio.set_event_loop(self._loop)
            self._loop.call_soon(ready.set)
            self._loop.run_forever()

        threading.Thread(target=run, daemon=True).start()
        ready.wait()

    def call(self, coro):
        return asyncio.run_coroutine_threadsafe(coro, self._loop).result(
            TIMEOUT)


_hosts = []


def _host():
    if not _hosts:
        _hosts.append(_Host())
    return _hosts[0]


class _Server:

    def __init__(self, spec, register=None, query=None, connected=None):
        self.spec = spec
        self.infos = []
        self.errors = []
        self.server = None
        self._connected = connected
        self._register = register
        self._query = query
        self._timer = None
        self._socket = None

    async def start(self):
        if not self.spec['listening']:
            # bound port can not be used by others
            self._socket = socket.socket()
            self._socket.bind(('127.0.0.1', 0))
            self.port = self._socket.getsockname()[1]
            return
        while self.server is None:
            with socket.socket() as s:
                s.bind(('127.0.0.1', 0))
                self.port = s.getsockname()[1]
            with contextlib.suppress(OSError):
                self.server = await eventer.listen(
                    tcp.Address('127.0.0.1', self.port),
                    status=common.Status.OPERATIONAL,
                    connected_cb=self._on_connected,
                    register_cb=self._register,
                    query_cb=self._query,
                    close_timeout=0.01)
        # command which does not end is ended by closing of the server
        self._timer = asyncio.get_running_loop().call_later(
            TIMEOUT, self._on_timeout)

    def _on_timeout(self):
        self.errors.append('command did not finish')
        self.server.close()

    async def stop(self):
        if self._timer:
            self._timer.cancel()
        if self._socket:
            self._socket.close()
        if self.server:
            await self.server.async_close()

    def _on_connected(self, info):
        self.infos.append(info)
        if not self.spec['accept']:
            raise Exception('refused')
        if self._connected:
            self._connected(self)


def _execute(server, args, stdin=b''):
    """Exit status (None if failed with exception) and printed output"""
    spec = server.spec
    host = _host()
    host.call(server.start())
    argv = ['hat-event-manager']
    if spec['host'] is not None:
        argv += ['--host', spec['host']]
    argv += ['--port', str(server.port)]
    if spec['name'] is not None:
        argv += ['--client-name=' + spec['name']]
    if spec['token'] is not None:
        argv += ['--client-token=' + spec['token']]

    saved = sys.argv, sys.stdin, sys.stdout, sys.stderr
    output = io.StringIO()
    errors = io.StringIO()
    sys.argv = [*argv, *args]
    sys.stdin = io.TextIOWrapper(io.BytesIO(stdin), encoding='utf-8')
    sys.stdout = output
    sys.stderr = errors
    error = None
    try:
        try:
            # status used by interpreter for the result of main
            status = hat.event.manager.main.main()
            status = 0 if status is None else status
        except SystemExit as e:
            status = 0 if e.code is None else e.code
        except Exception as e:
            status = 1
            error = e
    finally:
        sys.argv, sys.stdin, sys.stdout, sys.stderr = saved
        asyncio.set_event_loop(None)
        host.call(server.stop())
    check(not server.errors, '%r: %r', args, server.errors)
    return status, output.getvalue(), error or errors.getvalue()


def _verify_connection(server, args, status, error):
    """Returns True if the client was connected"""
    spec = server.spec
    if not spec['listening']:
        return False
    check(len(server.infos) == 1, '%r: connections %r (status %r, %r)', args,
          server.infos, status, error)
    info = server.infos[0]
    check(info.client_name == ('manager' if spec['name'] is None
                               else spec['name']) and
          info.client_token == spec['token'], 'connection %r', info)
    return spec['accept']


def _time_arg(value):
    if value == 'now':
        return 'now'
    s, us = value
    return repr(s + us / 1_000_000)


def _verify_time(value, result):
    if value is None:
        check(result is None, 'timestamp %r', result)
        return
    check(isinstance(result, common.Timestamp), 'timestamp %r', result)
    if value == 'now':
        check(abs(result.s - time.time()) < 2 * TIMEOUT, 'timestamp %r is '
              'not current time', result)
        return
    us = round(float(_time_arg(value)) * 1_000_000)
    check(abs(result.s * 1_000_000 + result.us - us) <= 1 and
          0 <= result.us < 1_000_000, 'timestamp %r, expected %r', result,
          value)


def _event_json(event):
    payload = event['payload']
    if payload is not None and 'json' in payload:
        payload = {'data_type': 'json', 'data': payload['json']}
    elif payload is not None:
        payload = {'data_type': 'binary', 'binary_type': payload['bin'][0],
                   'data': payload['bin'][1]}
    return {'id': dict(zip(('server', 'session', 'instance'), event['id'])),
            'type': event['type'],
            'timestamp': dict(zip(('s', 'us'), event['t'])),
            'source_timestamp': (dict(zip(('s', 'us'), event['st']))
                                 if event['st'] else None),
            'payload': payload}


# commands

def register_run(case, ctx):
    requests = []

    def on_register(info, events):
        requests.append(list(events))
        if case['result'] == 'raise':
            raise Exception('register error')
        if case['result'] == 'none':
            return None
        return [common.Event(id=common.EventId(1, 1, 1 + i), type=event.type,
                             timestamp=common.Timestamp(1, 0),
                             source_timestamp=event.source_timestamp,
                             payload=event.payload)
                for i, event in enumerate(events)]

    # content
    payload_type = case['payload_type']
    kind = payload_type
    if kind is None:
        if case['source'] == 'file':
            kind = {'.json': 'json', '.yaml': 'yaml', '.yml': 'yaml',
                    '.toml': 'toml'}.get(case['suffix'], 'binary')
        else:
            kind = 'json'
    if kind == 'json':
        content = json.encode(case['json']).encode('utf-8')
        payload = common.EventPayloadJson(case['json'])
    elif kind == 'yaml':
        text = json.encode(case['json'], json.Format.YAML)
        content = text.encode('utf-8')
        payload = common.EventPayloadJson(
            json.decode(text, json.Format.YAML))
    elif kind == 'toml':
        text = json.encode(case['toml'], json.Format.TOML)
        content = text.encode('utf-8')
        payload = common.EventPayloadJson(
            json.decode(text, json.Format.TOML))
    elif kind == 'binary':
        content = bytes.fromhex(case['binary'])
        payload = common.EventPayloadBinary(case['binary_type'] or '',
                                            content)
    else:
        content = bytes.fromhex(case['binary'])
        payload = None

    args = ['register']
    if case['time'] is not None:
        args.append('--source-timestamp=' + _time_arg(case['time']))
    if payload_type is not None:
        args += ['--payload-type', payload_type]
    if case['binary_type'] is not None:
        args.append('--binary-type=' + case['binary_type'])
    if case['source'] == 'file':
        path = ctx.tmp / f'payload{case["suffix"]}'
        path.write_bytes(content)
        args += ['--payload-path', str(path)]
    elif case['source'] == '-':
        args.append('--payload-path=-')
    args.append('/'.join(case['type']))

    server = _Server(case['connection'], register=on_register)
    status, output, error = _execute(server, args, content)
    if not _verify_connection(server, args, status, error):
        check(status != 0, 'succeeded without connection')
        check(not requests, 'request without connection')
        ctx.label('not connected')
        return

    check(len(requests) == 1 and len(requests[0]) == 1,
          '%r: requests %r (status %r, %r)', args, requests, status, error)
    event = requests[0][0]
    check(event.type == tuple('/'.join(case['type']).split('/')),
          '%r: event type %r', args, event.type)
    _verify_time(case['time'], event.source_timestamp)
    check(gen.same(event.payload, payload), '%r: payload %r, expected %r',
          args, event.payload, payload)
    check((status == 0) == (case['result'] == 'ok'),
          '%r: status %r (%r), result of registration %s', args, status,
          error, case['result'])
    check(output == '', 'printed %r', output)
    ctx.label(f'payload {kind}')
    ctx.label(f'result {case["result"]}')
    ctx.nontrivial = True


def query_run(case, ctx):
    requests = []
    events = case['events']

    def on_query(info, params):
        requests.append(params)
        if case['result'] == 'raise':
            raise Exception('query error')
        return common.QueryResult(
            events=[gen.to_event(i) for i in events],
            more_follows=case['more'])

    params = case['params']
    args = ['query', params['q']]

    def option(name, value):
        if value is not None:
            args.append(f'{name}={value}')

    if params['q'] == 'timeseries':
        for name, key in [('--t-from', 't_from'), ('--t-to', 't_to'),
                          ('--source-t-from', 'st_from'),
                          ('--source-t-to', 'st_to')]:
            if params[key] is not None:
                option(name, _time_arg(params[key]))
        option('--order', params['order'])
        option('--order-by', params['by'])
    if params['q'] != 'latest':
        option('--max-results', params['max'])
        if params['last'] is not None:
            option('--last-event-id', ','.join(map(str, params['last'])))
    if params['q'] == 'server':
        if params['persisted']:
            args.append('--persisted')
        args.append(str(params['server']))
    elif params['types'] is not None:
        args.append('--event-types')
        args.extend('/'.join(i) for i in params['types'])

    server = _Server(case['connection'], query=on_query)
    status, output, error = _execute(server, args)
    if not _verify_connection(server, args, status, error):
        check(status != 0, 'succeeded without connection')
        check(output == '', 'printed %r', output)
        ctx.label('not connected')
        return

    check(len(requests) == 1, '%r: requests %r (status %r, %r)', args,
          requests, status, error)
    result = requests[0]
    types = {'latest': common.QueryLatestParams,
             'timeseries': common.QueryTimeseriesParams,
             'server': common.QueryServerParams}
    check(isinstance(result, types[params['q']]), '%r: %r', args, result)
    if params['q'] == 'server':
        check(result.server_id == params['server'] and
              result.persisted is params['persisted'], '%r: %r', args, result)
    else:
        check((None if result.event_types is None else
               [list(i) for i in result.event_types]) ==
              (None if params['types'] is None else
               ['/'.join(i).split('/') for i in params['types']]),
              '%r: %r', args, result)
    if params['q'] == 'timeseries':
        _verify_time(params['t_from'], result.t_from)
        _verify_time(params['t_to'], result.t_to)
        _verify_time(params['st_from'], result.source_t_from)
        _verify_time(params['st_to'], result.source_t_to)
        check(result.order.name == (params['order'] or 'DESCENDING') and
              result.order_by.name == (params['by'] or 'TIMESTAMP'),
              '%r: %r', args, result)
    if params['q'] != 'latest':
        check(result.max_results == params['max'] and
              gen.same(result.last_event_id, gen.to_id(params['last'])),
              '%r: %r', args, result)

    if case['result'] == 'raise':
        check(status != 0, 'failed query succeeded')
        check(output == '', 'printed %r', output)
    else:
        check(status == 0, '%r: status %r (%r)', args, status, error)
        expected = {'events': [_event_json(i) for i in events],
                    'more_follows': case['more']}
        check(gen.same(_decode(output), [expected]),
              '%r: printed %r, expected %r', args, output, expected)
    ctx.label(f'query {params["q"]}')
    ctx.label('printed events', len(events))
    ctx.nontrivial = True


def subscribe_run(case, ctx):
    def on_connected(server):
        task = asyncio.get_running_loop().create_task(notify(server))
        server.task = task

    async def notify(server):
        while not server.server.get_conn_infos():
            await asyncio.sleep(0)
        for events, persisted in case['notify']:
            await server.server.notify_events(
                [gen.to_event(i) for i in events], persisted, with_ack=True)
        server.server.close()

    args = ['subscribe']
    if case['server'] is not None:
        args += ['--server-id', str(case['server'])]
    if case['persisted']:
        args.append('--persisted')
    args.extend('/'.join(i) for i in case['types'])

    server = _Server(case['connection'], connected=on_connected)
    status, output, error = _execute(server, args)
    if not _verify_connection(server, args, status, error):
        check(status != 0, 'succeeded without connection')
        check(output == '', 'printed %r', output)
        ctx.label('not connected')
        return
    check(server.task.done() and not server.task.exception(),
          'notification failed')

    types = ['/'.join(i).split('/') for i in case['types']] or [['*']]
    expected = []
    for events, persisted in case['notify']:
        events = [i for i in events
                  if any(model.type_matches(tuple(i['type']), tuple(j))
                         for j in types) and
                  case['server'] in (None, i['id'][0])]
        if events and persisted == case['persisted']:
            expected.append([_event_json(i) for i in events])
    check(gen.same(_decode(output), expected),
          '%r: printed %r, expected %r (status %r, %r)', args, output,
          expected, status, error)
    check(status == 0, '%r: status %r (%r)', args, status, error)
    ctx.label('printed notifications', len(expected))
    if expected:
        ctx.nontrivial = True


def _decode(output):
    """Values of printed lines"""
    check(output == '' or output.endswith('\n'), 'printed %r', output)
    try:
        return [std_json.loads(i) for i in output.split('\n')[:-1]]
    except ValueError:
        check(False, 'printed %r', output)


SUBS = [
    Sub('register', register_strategy, register_run, 1600, 40000,
        'cases with registration request'),
    Sub('query', query_strategy, query_run, 1600, 40000,
        'cases with query request'),
    Sub('subscribe', subscribe_strategy, subscribe_run, 1200, 30000,
        'cases with printed notification')]
