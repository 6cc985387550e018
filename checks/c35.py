"""Server process and its configuration"""
TECHNIQUE = ('property-based testing: generated configuration files (valid '
             'and mutated) given to server processes, acceptance compared '
             'with the pinned schemas and running server with what is '
             'configured, through real network, signals and restart')
NOTE = ('Processes are forked from the checking process and use loopback '
        'addresses of their own. Configurations which satisfy the schemas '
        'and are changed in a value with meaning (addresses, paths, logging '
        'classes) may start or not.')

import asyncio
import copy
import json as std_json
import logging
import os
import pathlib
import signal
import sys
import time
import traceback
import types

from hypothesis import strategies as st
import jsonschema
import referencing
import referencing.jsonschema

from vlib import core, gen, sim
from vlib.core import Sub, check

from hat import aio
from hat import json
from hat.drivers import tcp
from hat.event import adminer
from hat.event import common
from hat.event import eventer
import hat.event.server.main

TIMEOUT = 60  # real time, only for broken processes
PLAIN = 'verif_plain_module'
SCHEMA = 'verif_schema_module'
INVALID = 'verif_invalid_module'

_schema = {
    '$schema': 'https://json-schema.org/draft/2020-12/schema',
    '$id': 'verif://module.yaml',
    'type': 'object',
    'required': ['module', 'value'],
    'properties': {'module': {'const': SCHEMA},
                   'value': {'type': 'integer'}}}

_junk = st.sampled_from([None, 1, -1, 2.5, 'x', '', [], {}, True, [1],
                         [['a']], {'a': 1}])
_str = st.sampled_from(['abc', 'x', '', 'čš', 'a b'])
_level = st.sampled_from(['DEBUG', 'INFO', 'WARNING', 'ERROR'])


@st.composite
def _conf(draw):
    backend = draw(st.sampled_from(['lmdb', 'lmdb', 'memory', 'dummy']))
    conf = {'name': draw(_str),
            'server_id': draw(st.sampled_from([0, 1, 2, 77, 2**31])),
            'backend': {'module': f'hat.event.backends.{backend}'},
            'modules': draw(st.lists(st.one_of(
                st.fixed_dictionaries({'module': st.just(PLAIN)},
                                      optional={'value': _junk,
                                                'more': gen.json_data}),
                st.fixed_dictionaries({'module': st.just(SCHEMA),
                                       'value': st.integers(0, 9)},
                                      optional={'more': _junk})),
                max_size=3)),
            'eventer_server': {'host': 'HOST', 'port': 23012}}
    if backend == 'lmdb':
        types = st.lists(st.sampled_from([['*'], ['a', '*'], ['a', '?'],
                                          ['event', '*']]),
                         max_size=2)
        condition = st.recursive(
            st.fixed_dictionaries(
                {'type': st.just('json')},
                optional={'data_path': st.sampled_from(
                    ['a', 0, -1, [], ['a', 1], ['a', ['b', [0]]]]),
                          'data_type': st.sampled_from(
                              ['null', 'boolean', 'string', 'number', 'array',
                               'object']),
                          'data_value': _junk}),
            lambda i: st.fixed_dictionaries(
                {'type': st.sampled_from(['all', 'any']),
                 'conditions': st.lists(i, max_size=2)}),
            max_leaves=3)
        conf['backend'].update({
            'db_path': 'DB',
            'identifier': draw(st.none() | _str),
            'flush_period': draw(st.sampled_from([0.2, 30])),
            'cleanup_period': draw(st.sampled_from([1, 30.5])),
            'conditions': draw(st.lists(st.fixed_dictionaries({
                'subscriptions': st.just([['c', '*']]),
                'condition': condition}), max_size=2)),
            'latest': {'subscriptions': [['*']]},
            'timeseries': draw(st.lists(st.fixed_dictionaries(
                {'order_by': st.sampled_from(['TIMESTAMP',
                                              'SOURCE_TIMESTAMP']),
                 'subscriptions': types},
                optional={'limit': st.fixed_dictionaries({}, optional={
                    'min_entries': st.integers(10, 20),
                    'max_entries': st.integers(1000, 2000),
                    'duration': st.sampled_from([1000, 1000.5, 2000.25]),
                    'size': st.integers(10**6, 10**7)})}), max_size=2))})
        if draw(st.booleans()):
            conf['backend']['timeseries_max_results'] = draw(
                st.integers(1, 100))
        if draw(st.booleans()):
            conf['backend']['timeseries_event_type_cache_size'] = draw(
                st.sampled_from([0, 1, 1000]))
    for key, value in [('type', st.just('event')), ('version', _str),
                       ('server_token', st.none() | _str),
                       ('adminer_server', st.just({'host': 'HOST',
                                                   'port': 23015})),
                       ('other', gen.json_data)]:
        if draw(st.booleans()):
            conf[key] = draw(value)
    if draw(st.booleans()):
        level = draw(_level)
        conf['log'] = {
            'version': 1,
            'disable_existing_loggers': False,
            'formatters': {'f': {'format': '%(levelname)s %(message)s'}},
            'handlers': {'h': {'class': 'logging.FileHandler',
                               'filename': 'LOG', 'formatter': 'f',
                               'level': draw(_level)}},
            'loggers': {'verif': {'level': level, 'propagate': False,
                                  'handlers': ['h']}}}
    return conf


def _paths(data, path=()):
    yield path
    if isinstance(data, dict):
        for k, v in data.items():
            yield from _paths(v, (*path, k))
    elif isinstance(data, list):
        for k, v in enumerate(data):
            yield from _paths(v, (*path, k))


@st.composite
def strategy(draw):
    conf = draw(_conf())
    case = {'conf': conf,
            'suffix': draw(st.sampled_from(['.yaml', '.yml', '.json',
                                            '.toml'])),
            'mutation': None,
            'signals': draw(st.lists(st.sampled_from(['SIGTERM', 'SIGTERM',
                                                      'SIGINT']),
                                     min_size=2, max_size=2)),
            'flush': draw(st.booleans()),
            'events': draw(st.lists(st.tuples(
                st.sampled_from([['a'], ['a', 'b'], ['b', 'c'], ['x']]),
                gen.json_data), min_size=1, max_size=3))}
    if draw(st.booleans()):
        path = draw(st.sampled_from([
            i for i in _paths({k: v for k, v in conf.items()
                               if k != 'other'}) if i]))
        # levels of structure are equally important
        depth = draw(st.sampled_from([1, 2, 2, 3, 3, 9]))
        path = path[:depth]
        action = draw(st.sampled_from(['delete', 'delete', 'set', 'set',
                                       'add']))
        if path[0] in ('backend', 'modules') and draw(st.integers(0, 5)) == 0:
            value = draw(st.sampled_from(['not.existing.module', INVALID,
                                          'json']))
            path = (('backend', 'module') if path[0] == 'backend' or
                    not conf['modules'] else ('modules', 0, 'module'))
            action = 'set'
        else:
            value = draw(_junk)
        case['mutation'] = [action, list(path), value]
    return case


def _mutate(conf, mutation):
    conf = copy.deepcopy(conf)
    if not mutation:
        return conf
    action, path, value = mutation
    parent = conf
    for i in path[:-1]:
        parent = parent[i]
    key = path[-1]
    if action == 'delete':
        del parent[key]
    elif action == 'set':
        parent[key] = value
    elif isinstance(parent[key], dict):
        parent[key]['added'] = value
    elif isinstance(parent[key], list):
        parent[key].append(value)
    return conf


_validators = {}


def _is_valid(schema_id, schema, data):
    if not _validators:
        paths = (core.VERIF / 'vlib/data/schemas').glob('*.yaml')
        schemas = [json.decode_file(i) for i in paths]
        schemas.extend(json.json_schema_repo.values()
                       if hasattr(json, 'json_schema_repo') else
                       json.default_schemas_json.values())
        registry = referencing.Registry().with_resources([
            (i['$id'], referencing.jsonschema.DRAFT202012.create_resource(i))
            for i in schemas])
        for i in schemas:
            _validators[i['$id']] = jsonschema.Draft202012Validator(
                i, registry=registry)
    validator = (jsonschema.Draft202012Validator(schema) if schema else
                 _validators[schema_id])
    return validator.is_valid(data)


def _valid(conf):
    if not _is_valid('hat-event://server.yaml', None, conf):
        return False
    backend = conf['backend']
    if not backend['module'].startswith('hat.event.backends.'):
        return False
    if backend['module'].endswith('.lmdb'):
        if not _is_valid('hat-event://backends/lmdb.yaml', None, backend):
            return False
    for i in conf['modules']:
        if i['module'] == SCHEMA:
            if not _is_valid(None, _schema, i):
                return False
        elif i['module'] != PLAIN:
            return False
    return True


def _harmless(mutation):
    """Mutation of valid configuration after which server has to work"""
    action, path, value = mutation
    if action == 'add':
        return (path[0] in ('backend', 'eventer_server', 'adminer_server')
                and len(path) == 1)
    if path[0] in ('type', 'version', 'name', 'other'):
        return True
    if path[0] in ('server_token', 'adminer_server', 'log'):
        return action == 'delete' and len(path) == 1
    if path[0] == 'modules':
        return action == 'delete' or path[-1] != 'module'
    return False


class _Module(common.Module):

    def __init__(self, conf, engine, source):
        self.conf = conf
        self._group = aio.Group()
        self._group.spawn(engine.register, source, [common.RegisterEvent(
            ('module', str(source.id)), None, common.EventPayloadJson(conf))])

    @property
    def async_group(self):
        return self._group

    @property
    def subscription(self):
        return common.create_subscription([('log', '*')])

    async def process(self, source, event):
        logging.getLogger('verif').log(getattr(logging, event.type[1]),
                                       '%s', event.type[2])


def _install():
    for name, info in [
            (PLAIN, common.ModuleInfo(_Module)),
            (SCHEMA, common.ModuleInfo(_Module, 'verif://module.yaml',
                                       {'verif://module.yaml': _schema})),
            (INVALID, object())]:
        py_module = types.ModuleType(name)
        py_module.info = info
        sys.modules[name] = py_module


class _Process:

    def __init__(self, path, out):
        self.out = out
        self.code = None
        sys.stdout.flush()
        self.pid = os.fork()
        if self.pid:
            return
        # server process
        code = 1
        try:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.signal(signal.SIGVTALRM, signal.SIG_DFL)
            asyncio._set_running_loop(None)
            logging.disable(logging.NOTSET)
            fd = os.open(out, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            os.chdir(out.parent)
            sys.argv = ['hat-event-server', '--conf', str(path)]
            try:
                code = hat.event.server.main.main() or 0
            except SystemExit as e:
                code = (e.code if isinstance(e.code, int) else
                        0 if e.code is None else 1)
            except BaseException:
                os.write(2, traceback.format_exc().encode())
        finally:
            os._exit(code if isinstance(code, int) else 1)

    def poll(self):
        if self.code is None:
            pid, status = os.waitpid(self.pid, os.WNOHANG)
            if pid:
                self.code = os.waitstatus_to_exitcode(status)
        return self.code

    def kill(self):
        if self.poll() is None:
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)

    async def wait(self, what):
        end = time.monotonic() + TIMEOUT
        while self.poll() is None:
            check(time.monotonic() < end, 'hang: server process %s', what)
            await asyncio.sleep(0.005)
        return self.code

    def output(self):
        return self.out.read_text(errors='replace')[-600:]


async def _try(process, what, fn):
    """Repeat until connected"""
    end = time.monotonic() + TIMEOUT
    while True:
        check(process.poll() is None, '%s: server process ended with %s: %s',
              what, process.poll(), process.output()
              if process.poll() is not None else '')
        try:
            return await asyncio.wait_for(fn(), TIMEOUT)
        except ConnectionError:
            check(time.monotonic() < end, '%s: not available', what)
            await asyncio.sleep(0.01)


class _Run:

    def __init__(self, case, ctx):
        self.case = case
        self.ctx = ctx
        pid = os.getpid()
        self.host = f'127.{1 + (pid >> 16) % 250}.{pid >> 8 & 255}.{pid & 255}'
        # a changed configuration can listen on all addresses - ports of
        # processes running at the same time have to be different
        port = 10_000 + pid % 10_000 * 2
        values = {'HOST': self.host, 'DB': str(ctx.tmp / 'db'),
                  'LOG': str(ctx.tmp / 'log')}
        ports = {23012: port, 23015: port + 1}

        def fill(data):
            if isinstance(data, dict):
                return {k: (ports.get(v, v)
                            if k == 'port' and type(v) is int else fill(v))
                        for k, v in data.items()}
            if isinstance(data, list):
                return [fill(i) for i in data]
            return values.get(data, data) if isinstance(data, str) else data

        self.conf = fill(_mutate(case['conf'], case['mutation']))
        self.path = ctx.tmp / ('conf' + case['suffix'])

    def write(self):
        """False if configuration can not be expressed in format"""
        try:
            json.encode_file(self.conf, self.path)
            return json.decode_file(self.path) == self.conf
        except Exception:
            return False

    def start(self):
        return _Process(self.path, self.ctx.tmp / 'out')

    async def run(self):
        if not self.write():
            self.path = self.path.with_suffix('.json')
            self.path.write_text(std_json.dumps(self.conf))
        valid = _valid(self.conf)
        mutation = self.case['mutation']
        process = self.start()
        try:
            if not valid:
                self.ctx.label('invalid')
                code = await process.wait('with invalid configuration')
                check(code != 0,
                      'server started with invalid configuration (%s)',
                      self.case['mutation'])
                check(not (self.ctx.tmp / 'db').exists(),
                      'database is created with invalid configuration')
            elif not mutation or _harmless(mutation):
                self.ctx.label('valid')
                await self.works(process, 0, [])
                process.kill()
                process = self.start()
                await self.works(process, 1, self.events)
            else:
                self.ctx.label('changed')
                await asyncio.sleep(0.3)
                if process.poll() is None:
                    os.kill(process.pid, signal.SIGTERM)
                    await process.wait('after signal')
        finally:
            process.kill()
        self.ctx.nontrivial = True

    async def works(self, process, index, previous):
        conf = self.conf
        what = f'configuration {self.case["mutation"] or ""}'
        addr = tcp.Address(self.host, conf['eventer_server']['port'])
        token = conf.get('server_token')
        got = []
        client = await _try(process, what, lambda: eventer.connect(
            addr, 'client', client_token=token, subscriptions=[('*', )],
            events_cb=lambda _, events: got.extend(events)))
        try:
            if token is not None:
                kind, e = await sim.outcome(asyncio.wait_for(eventer.connect(
                    addr, 'other', client_token=token + 'x'), TIMEOUT))
                if kind == 'ok':
                    await e.async_close()
                check(kind == 'error' and
                      isinstance(e, eventer.EventerInitError),
                      'client with wrong token: %r', e)
            end = time.monotonic() + TIMEOUT
            while client.status != common.Status.OPERATIONAL:
                check(time.monotonic() < end and client.is_open and
                      process.poll() is None, 'server is not operational')
                await asyncio.sleep(0.005)
            register = [common.RegisterEvent(tuple(t), None,
                                             common.EventPayloadJson(d))
                        for t, d in self.case['events']]
            levels = ['DEBUG', 'INFO', 'WARNING', 'ERROR']
            register.extend(common.RegisterEvent(
                ('log', i, f'{index}'), None, None) for i in levels)
            events = await asyncio.wait_for(client.register(register, True),
                                            TIMEOUT)
            check(events is not None and len(events) == len(register),
                  'registration ended with %r', events)
            for event, i in zip(events, register):
                check(event.id.server == conf['server_id'] and
                      gen.same(event, common.Event(
                          event.id, i.type, event.timestamp,
                          i.source_timestamp, i.payload)),
                      'event %r of %r', event, i)
            check(not previous or
                  conf['backend']['module'].endswith(('memory', 'dummy')) or
                  events[0].id.session > previous[-1].id.session,
                  'events %r after %r', events, previous)
            await self.stored(client, events)
            # modules
            end = time.monotonic() + TIMEOUT
            while True:
                result = {i.type[1]: i.payload.data for i in got
                          if i.type[0] == 'module'}
                result.update(self.module_events)
                if len(result) >= len(conf['modules']):
                    break
                if conf['backend']['module'].endswith('dummy') or (
                        time.monotonic() > end):
                    break
                await asyncio.sleep(0.005)
                await self.stored(client, events)
            if not conf['backend']['module'].endswith('dummy'):
                check(len(result) >= len(conf['modules']) and
                      gen.same([v for _, v in sorted(result.items())],
                               conf['modules']),
                      'modules %r instead of %r', result, conf['modules'])
            self.log(levels, index)
            if 'adminer_server' in conf:
                addr = tcp.Address(self.host, conf['adminer_server']['port'])
                client2 = await _try(process, what,
                                     lambda: adminer.connect(addr))
                data = await asyncio.wait_for(client2.get_log_conf(),
                                              TIMEOUT)
                check(gen.same(data, conf.get('log')),
                      'logging configuration %r instead of %r', data,
                      conf.get('log'))
                await client2.async_close()
            self.events = [*previous, *events]
            if conf['backend']['module'].endswith('lmdb'):
                await self.stored(client, self.events)
        finally:
            await client.async_close()
        number = getattr(signal, self.case['signals'][index])
        os.kill(process.pid, number)
        code = await process.wait('after signal')
        check(code == 0, 'server ended with %s after signal: %s', code,
              process.output())

    module_events = {}

    async def stored(self, client, events):
        result = await asyncio.wait_for(client.query(
            common.QueryServerParams(self.conf['server_id'], False, None,
                                     None)), TIMEOUT)
        stored = {i.id: i for i in result.events}
        if self.conf['backend']['module'].endswith('dummy'):
            check(not stored, 'dummy backend stores %r', stored)
            return
        last = {}
        for i in events:
            last[i.type] = i
        if any(i['condition'] for i in
               self.conf['backend'].get('conditions', ())):
            last = {k: v for k, v in last.items() if k[0] != 'c'}
        for i in last.values():
            check(gen.same(stored.get(i.id), i), 'event %r is not stored', i)
        session = max(i.id.session for i in result.events)
        self.module_events = {
            i.type[1]: i.payload.data for i in result.events
            if i.type[0] == 'module'}
        return session

    def log(self, levels, index):
        conf = self.conf.get('log')
        path = self.ctx.tmp / 'log'
        lines = path.read_text().splitlines() if path.exists() else []
        expected = []
        if conf:
            least = max(getattr(logging, conf['handlers']['h']['level']),
                        getattr(logging, conf['loggers']['verif']['level']))
            expected = [f'{i} {k}' for k in range(index + 1)
                        for i in levels for _ in self.conf['modules']
                        if getattr(logging, i) >= least]
        check(sorted(lines) == sorted(expected), 'logged %r instead of %r', lines, expected)


def run(case, ctx):
    _install()
    asyncio.run(_Run(case, ctx).run())


SUBS = [
    Sub('process', strategy, run, 320, 6000,
        'all distinct configurations')]
