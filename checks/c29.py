"""Database tools"""
TECHNIQUE = ('property-based testing: generated databases (of current version '
             'created by backend, of older versions by independent encoders) '
             'processed by command line tools, compared with independently '
             'decoded content and with content obtained by backend')
NOTE = ('Tools are executed in the checking process with replaced arguments '
        'and standard streams. Databases of version 0.6 contain events of '
        'their own server only, as registered by that version.')

import asyncio
import collections
import io
import json as std_json
import struct
import sys

from hypothesis import strategies as st

from vlib import gen, lmdbm, model, patches, sim
from vlib.core import Sub, check

from hat import json
from hat import sbs
from hat.event import common
from hat.event.backends.lmdb import info as lmdb_info
import hat.event.backends.lmdb.convert.main
import hat.event.backends.lmdb.manager.main

STORES = ['SYSTEM_SETTINGS', 'SYSTEM_LAST_EVENT_ID', 'SYSTEM_LAST_TIMESTAMP',
          'REF', 'LATEST_DATA', 'LATEST_TYPE', 'TIMESERIES_DATA',
          'TIMESERIES_PARTITION', 'TIMESERIES_COUNT']
LATEST = ['LATEST_DATA', 'LATEST_TYPE']
TIMESERIES = ['TIMESERIES_DATA', 'TIMESERIES_PARTITION', 'TIMESERIES_COUNT']


def _dump(path, names):
    """Raw content of stores, missing ones are None"""
    env = patches.real_environment(str(path), map_size=2**40, subdir=False,
                                   max_dbs=20, readonly=True)
    try:
        result = {}
        for name in names:
            try:
                db = env.open_db(name.encode('utf-8'), create=False)
            except Exception:
                result[name] = None
                continue
            with env.begin() as txn:
                result[name] = dict(txn.cursor(db=db))
        return result
    finally:
        env.close()


def _execute(main, args):
    """(exit status, output)"""
    saved = sys.argv, sys.stdout, sys.stderr
    output = io.StringIO()
    sys.argv = ['tool', *map(str, args)]
    sys.stdout = output
    sys.stderr = io.StringIO()
    try:
        try:
            status = main()
            status = 0 if status is None else status
        except SystemExit as e:
            status = 0 if e.code is None else e.code
        except Exception as e:
            status = e
    finally:
        sys.argv, sys.stdout, sys.stderr = saved
        patches.close_envs()
    return status, output.getvalue()


# databases of current version

_batch = st.lists(lmdbm.event_spec(
    lmdbm.good_id_step, lmdbm.good_t_step, types=gen.weighted(
        (6, lmdbm.types), (1, gen.any_type)),
    payload=gen.one_of(lmdbm.payload, gen.payload)),
    min_size=1, max_size=6)
_history = gen.weighted(
    (1, st.lists(_batch, max_size=4)),
    (3, st.lists(_batch, min_size=1, max_size=4)))


_repeat = gen.weighted((40, st.just(1)), (1, st.sampled_from([30, 300])))


@st.composite
def _database(draw):
    pool, confs = draw(lmdbm.pool_and_confs(
        conditions=lmdbm.simple_conditions,
        identifiers=gen.opt(1, gen.text)))
    return {'pool': pool, 'conf': confs[0], 'history': draw(_history),
            'repeat': draw(_repeat)}


# great databases

GREAT_RULE = 'databases with more than 1000 registered events'

_great = st.fixed_dictionaries({
    'count': st.sampled_from([200, 1100, 2500, 5000, 9000]),
    'types': st.sampled_from([1, 20, 300, 1100, 3000]),
    'servers': st.sampled_from([1, 2, 3]),
    'parts': st.lists(st.sampled_from([
        {'by_source': False, 'subscriptions': [['*']]},
        {'by_source': True, 'subscriptions': [['*']]},
        {'by_source': False, 'subscriptions': [['t', '1'], ['t', '2']]},
        {'by_source': True, 'subscriptions': [['t', '0']]}]),
        max_size=3, unique_by=repr)})


def _great_specs(great):
    return [{'srv': i % great['servers'],
             'id': 'session' if i % 7 == 0 else 'next',
             't': ['same', 'us', 's'][i // 5 % 3],
             'type': ['t', str(i % great['types'])],
             'st': [i // 11 % 900, 3] if i % 4 else None,
             'payload': {'json': i} if i % 3 else None}
            for i in range(great['count'])]


def _great_database(great):
    specs = _great_specs(great)
    return {'pool': great['parts'],
            'conf': {'latest': [['*']], 'conditions': [],
                     'parts': [[i, None]
                               for i in range(len(great['parts']))]},
            'history': [specs[i:i + 1500]
                        for i in range(0, len(specs), 1500)]}


def _create(case, path):
    """Registered events by id"""
    stamper = lmdbm.Stamper()
    events = {}

    async def main(loop):
        backend = await lmdb_info.create(
            lmdbm.backend_conf(case['pool'], case['conf'], path), None, None)
        for specs in case['history'] * case.get('repeat', 1):
            batch = [stamper.event(i) for i in specs]
            events.update((i.id, i) for i in batch)
            await backend.register(batch)
        await backend.async_close()

    sim.run(main)
    return events


def _event_id(data):
    return common.EventId(*struct.unpack('>QQQ', data))


def _timestamp(data):
    s, us = struct.unpack('>QI', data)
    return common.Timestamp(s - 2**63, us)


def _uint(data):
    return struct.unpack('>Q', data)[0]


def _refs(data):
    """Keys of latest data and of time series data"""
    latest = []
    timeseries = []
    while data:
        if data[0] == 4:
            latest.append(data[1:9])
            data = data[9:]
        else:
            timeseries.append(data[1:45])
            data = data[45:]
    return latest, timeseries


# copy

def copy_strategy():
    return st.fixed_dictionaries({
        'db': _database(),
        'skip_latest': st.booleans(),
        'skip_timeseries': st.booleans(),
        'existing': st.sampled_from([False] * 9 + [True])})


def copy_run(case, ctx):
    src = ctx.tmp / 'src.db'
    dst = ctx.tmp / 'dst.db'
    _create(case['db'], src)
    before = _dump(src, STORES)
    if case['existing']:
        dst.write_bytes(b'content')
    args = ['copy']
    if case['skip_latest']:
        args.append('--skip-latest')
    if case['skip_timeseries']:
        args.append('--skip-timeseries')
    status, _ = _execute(hat.event.backends.lmdb.manager.main.main,
                         [*args, src, dst])
    check(_dump(src, STORES) == before, 'source is changed')
    if case['existing']:
        check(status != 0 and dst.read_bytes() == b'content',
              'existing file is overwritten')
        ctx.label('existing destination')
        return
    check(status == 0, 'copy failed with %r', status)

    expected = dict(before)
    if case['skip_latest']:
        expected.update((i, {}) for i in LATEST)
    if case['skip_timeseries']:
        expected.update((i, {}) for i in TIMESERIES)
    result = _dump(dst, STORES)
    for name in STORES:
        if name != 'REF':
            check((result[name] or {}) == expected[name],
                  'store %s: %r, expected %r', name, result[name],
                  expected[name])
    refs = {}
    for key, value in before['REF'].items():
        latest, timeseries = _refs(value)
        latest = [] if case['skip_latest'] else latest
        timeseries = [] if case['skip_timeseries'] else timeseries
        if latest or timeseries:
            refs[key] = sorted(latest), sorted(timeseries)
    result_refs = {key: tuple(map(sorted, _refs(value)))
                   for key, value in (result['REF'] or {}).items()}
    check(result_refs == refs, 'references %r, expected %r', result_refs,
          refs)
    ctx.label('events', len(before['REF']))
    ctx.nontrivial = len(before['REF']) > 1


def great_copy_strategy():
    return st.fixed_dictionaries({
        'great': _great,
        'skip_latest': gen.weighted((3, st.just(False)), (1, st.just(True))),
        'skip_timeseries': gen.weighted((3, st.just(False)),
                                        (1, st.just(True)))})


def great_copy_run(case, ctx):
    copy_run({**case, 'db': _great_database(case['great']),
              'existing': False}, ctx)
    ctx.nontrivial = case['great']['count'] > 1000


# query

_types_arg = st.none() | st.lists(lmdbm.query_type.filter(len), max_size=3)
_server_arg = gen.opt(1, st.sampled_from([*lmdbm.SERVERS, 9]))
_partition_arg = gen.opt(1, st.integers(0, 4))

_query = st.one_of(
    st.fixed_dictionaries({'action': st.sampled_from(
        ['last_event_id', 'last_timestamp', 'ref']), 'server': _server_arg}),
    st.fixed_dictionaries({'action': st.just('settings')}),
    st.fixed_dictionaries({'action': st.just('latest'),
                           'types': _types_arg}),
    st.fixed_dictionaries({'action': st.just('partition'),
                           'partition': _partition_arg}),
    st.fixed_dictionaries({'action': st.just('timeseries'),
                           'partition': _partition_arg,
                           'server': _server_arg, 'types': _types_arg}))


def query_strategy():
    return st.fixed_dictionaries({
        'db': _database(),
        'queries': st.lists(_query, min_size=1, max_size=4)})


def _id_json(event_id):
    return {'server': event_id.server, 'session': event_id.session,
            'instance': event_id.instance}


def _time_json(timestamp):
    return {'s': timestamp.s, 'us': timestamp.us}


def _event_json(event):
    payload = event.payload
    if isinstance(payload, common.EventPayloadJson):
        payload = {'type': 'JSON', 'data': payload.data}
    elif payload is not None:
        payload = {'type': 'BINARY', 'subtype': payload.type,
                   'data': payload.data.hex()}
    return {'id': _id_json(event.id), 'type': list(event.type),
            'timestamp': _time_json(event.timestamp),
            'source_timestamp': (_time_json(event.source_timestamp)
                                 if event.source_timestamp else None),
            'payload': payload}


def query_run(case, ctx):
    path = ctx.tmp / 'db'
    events = _create(case['db'], path)
    dump = _dump(path, STORES)
    latest_events = {}
    timeseries = []
    for key, value in dump['REF'].items():
        event = events[_event_id(key)]
        latest, series = _refs(value)
        for i in latest:
            latest_events[i] = event
        for i in series:
            timeseries.append((i, event))
    check(set(latest_events) == set(dump['LATEST_DATA']) and
          {i for i, _ in timeseries} == set(dump['TIMESERIES_DATA']),
          'inconsistent references')
    timeseries.sort(key=lambda i: i[0])

    for query in case['queries']:
        action = query['action']
        args = ['query', '--db', path, action]
        server = query.get('server')
        partition = query.get('partition')
        types = query.get('types')
        if server is not None:
            args += ['--server-id', server]
        if partition is not None:
            args += ['--partition-id', partition]
        if types is not None:
            args.append('--event-types')
            args.extend('/'.join(i) for i in types)
        status, output = _execute(
            hat.event.backends.lmdb.manager.main.main, args)
        check(status == 0, '%r failed with %r', args[3:], status)
        check(output == '' or output.endswith('\n'), 'printed %r', output)
        lines = [std_json.loads(i) for i in output.split('\n')[:-1]]

        def matches(event):
            return (server in (None, event.id.server) and
                    (types is None or
                     model.any_matches(event.type, types)))

        if action == 'settings':
            names = {0: 'VERSION', 1: 'IDENTIFIER'}
            expected = [{'settings_id': names[_uint(k)],
                         'data': std_json.loads(v)}
                        for k, v in dump['SYSTEM_SETTINGS'].items()]
        elif action == 'last_event_id':
            expected = [_id_json(_event_id(v)) for k, v in
                        dump['SYSTEM_LAST_EVENT_ID'].items()
                        if server in (None, _uint(k))]
        elif action == 'last_timestamp':
            expected = [_time_json(_timestamp(v)) for k, v in
                        dump['SYSTEM_LAST_TIMESTAMP'].items()
                        if server in (None, _uint(k))]
        elif action == 'ref':
            expected = []
            for key, value in sorted(dump['REF'].items()):
                event_id = _event_id(key)
                if server not in (None, event_id.server):
                    continue
                latest, series = _refs(value)
                for i in latest:
                    expected.append({
                        'event_id': _id_json(event_id), 'ref_type': 'latest',
                        'event_type': list(latest_events[i].type)})
                for i in series:
                    expected.append({
                        'event_id': _id_json(event_id),
                        'ref_type': 'timeseries',
                        'partition_id': _uint(i[:8]),
                        'timestamp': _time_json(_timestamp(i[8:20]))})
        elif action == 'latest':
            expected = [_event_json(i) for i in latest_events.values()
                        if matches(i)]
        elif action == 'partition':
            expected = [{'partition_id': _uint(k),
                         'data': std_json.loads(v)}
                        for k, v in dump['TIMESERIES_PARTITION'].items()
                        if partition in (None, _uint(k))]
        else:
            expected = [_event_json(event) for key, event in timeseries
                        if partition in (None, _uint(key[:8])) and
                        matches(event)]

        if action in ('ref', 'latest'):
            # order is not significant
            check(collections.Counter(map(gen.norm, lines)) ==
                  collections.Counter(map(gen.norm, expected)),
                  '%r: printed %r, expected %r', args[3:], lines, expected)
        else:
            check(gen.same(lines, expected), '%r: printed %r, expected %r',
                  args[3:], lines, expected)
        ctx.label(action)
        if len(lines) > 1:
            ctx.nontrivial = True
            ctx.label('with more lines')


def great_query_strategy():
    types_arg = st.none() | st.sampled_from(
        [[['*']], [['t', '1'], ['t', '17']], [['?', '0']]])
    return st.fixed_dictionaries({
        'great': _great,
        'queries': st.lists(_query.flatmap(
            lambda q: st.just(q) if 'types' not in q else
            types_arg.map(lambda i: {**q, 'types': i})),
            min_size=1, max_size=4)})


def great_query_run(case, ctx):
    query_run({'db': _great_database(case['great']),
               'queries': case['queries']}, ctx)
    ctx.nontrivial = case['great']['count'] > 1000


# convert

_repos = {version: sbs.Repository(r"""
module Old

Timestamp = Record {
    s:   Integer
    us:  Integer
}

EventId = Record {
    server:    Integer
    %s
    instance:  Integer
}

EventPayload = Choice {
    binary:  Bytes
    json:    String
    sbs:     Record {
        module:  Optional(String)
        type:    String
        data:    Bytes
    }
}

Event = Record {
    id:               EventId
    type:             Array(String)
    timestamp:        Timestamp
    sourceTimestamp:  Optional(Timestamp)
    payload:          Optional(EventPayload)
}
""" % session) for version, session in (('0.6', ''),
                                        ('0.7', 'session:   Integer'))}

_old_payload = st.one_of(
    st.none(),
    st.builds(lambda i: {'json': i}, gen.json_data),
    st.builds(lambda i: {'bin': i.hex()}, st.binary(max_size=8)),
    st.builds(lambda m, t, d: {'sbs': [m, t, d.hex()]},
              st.none() | gen.text, gen.text, st.binary(max_size=8)))

_old_event = st.fixed_dictionaries({
    'srv': st.sampled_from([0, 0, 1]), 'id': lmdbm.good_id_step,
    't': lmdbm.good_t_step,
    'type': gen.weighted((5, lmdbm.short_types), (1, gen.short_any_type)),
    'st': gen.opt(1, st.one_of(gen.timestamp, st.tuples(
        st.integers(-2, 4), st.integers(0, 2)).map(list))),
    'payload': _old_payload})


def convert_strategy():
    return st.fixed_dictionaries({
        'version': st.sampled_from(['0.6', '0.7']),
        'server': st.sampled_from([0, 1, 1, 5]),
        'latest': st.sampled_from([True, True, True, False]),
        'pool': st.lists(lmdbm.partition, max_size=3),
        'first_ref': st.sampled_from([0, 1, 2, 3, 5, 300]),
        'events': st.lists(_old_event, max_size=12),
        'repeat': _repeat,
        'suffix': st.sampled_from(['', '.db', '.db.new']),
        'existing': st.sampled_from([False] * 9 + [True])})


def _pack_time(t):
    return struct.pack('>QI', t.s + 2**63, t.us)


def _optional(x):
    return ('none', None) if x is None else ('value', x)


def _canonical(part):
    """Subscriptions as stored in database"""
    subscription = common.create_subscription(
        tuple(i) for i in part['subscriptions'])
    return [list(i) for i in sorted(subscription.get_query_types())]


class _Old:
    """Content of old database"""

    def __init__(self, case):
        self.case = case
        self.v06 = case['version'] == '0.6'
        self.server = case['server'] if self.v06 else None
        self.events = []
        self.stores = {}
        ids = {}
        t = lmdbm.BASE_S * 1_000_000
        for spec in case['events'] * case.get('repeat', 1):
            srv = 0 if self.v06 else spec['srv']
            session, instance = ids.get(srv, (0, 0))
            if self.v06:
                # only single number, starting with 1
                instance += 1 if spec['id'] != 'skip' else 5
                session = instance
            elif spec['id'] == 'next':
                session, instance = max(session, 1), instance + 1
            elif spec['id'] == 'session':
                session, instance = session + 1, 1
            else:
                session, instance = session + 3, 2
            ids[srv] = session, instance
            t += {'same': 0, 'us': 1, 's': 1_000_000,
                  'big': 100_000_000}[spec['t']]
            server = (max(self.server, 1) if self.v06
                      else lmdbm.SERVERS[srv])
            payload = spec['payload']
            if payload is None:
                new_payload = None
                old_payload = None
            elif 'json' in payload:
                new_payload = common.EventPayloadJson(payload['json'])
                old_payload = 'json', json.encode(payload['json'])
            elif 'bin' in payload:
                data = bytes.fromhex(payload['bin'])
                new_payload = common.EventPayloadBinary('', data)
                old_payload = 'binary', data
            else:
                module, name, data = payload['sbs']
                data = bytes.fromhex(data)
                new_payload = common.EventPayloadBinary(
                    name if module is None else f'{module}.{name}', data)
                old_payload = 'sbs', {'module': _optional(module),
                                      'type': name, 'data': data}
            stamp = (None if spec['st'] is None
                     else common.Timestamp(*spec['st']))
            event = common.Event(
                id=common.EventId(server, session, instance),
                type=tuple(spec['type']),
                timestamp=common.Timestamp(t // 1_000_000, t % 1_000_000),
                source_timestamp=stamp, payload=new_payload)
            old_id = {'server': self.server if self.v06 else server,
                      'instance': instance}
            if not self.v06:
                old_id['session'] = session
            data = _repos[case['version']].encode('Old.Event', {
                'id': old_id,
                'type': list(event.type),
                'timestamp': event.timestamp._asdict(),
                'sourceTimestamp': _optional(stamp and stamp._asdict()),
                'payload': _optional(old_payload)})
            self.events.append((event, data))
        self._create()

    def _create(self):
        case = self.case
        self.latest = {}
        if case['latest']:
            for event, data in self.events:
                self.latest[event.type] = event, data
        self.partitions = []
        for part in case['pool']:
            items = []
            for event, data in self.events:
                key = (event.source_timestamp if part['by_source']
                       else event.timestamp)
                if key is not None and model.any_matches(
                        event.type, part['subscriptions']):
                    items.append((key, event, data))
            self.partitions.append(items)
        refs = collections.defaultdict(list)

        latest = {}
        latest_type = {}
        for i, (event, data) in enumerate(self.latest.values()):
            type_data = json.encode(list(event.type)).encode('utf-8')
            if self.v06:
                latest[type_data] = data
            else:
                key = struct.pack('>Q', case['first_ref'] + i)
                latest[key] = data
                latest_type[key] = type_data
                refs[event.id].append(b'\x01' + key)

        series = {}
        partitions = {}
        counts = {}
        for i, (part, items) in enumerate(zip(case['pool'],
                                              self.partitions)):
            key = struct.pack('>Q', i + 1)
            partitions[key] = json.encode({
                'order': 2 if part['by_source'] else 1,
                'subscriptions': _canonical(part)}).encode('utf-8')
            for t, event, data in items:
                item_key = key + _pack_time(t)
                if self.v06:
                    item_key += struct.pack('>Q', event.id.instance)
                else:
                    item_key += struct.pack('>QQQ', *event.id)
                series[item_key] = data
                refs[event.id].append(b'\x03' + item_key)
            if items:
                counts[key] = (
                    json.encode(len(items)).encode('utf-8') if self.v06
                    else struct.pack('>Q', len(items)))

        last = {}
        for event, _ in self.events:
            last[event.id.server] = event
        if self.v06:
            system = {b'server_id': struct.pack('>Q', self.server)}
            self.stores = {'system': system, 'latest': latest,
                           'ordered_data': series,
                           'ordered_partition': partitions,
                           'ordered_count': counts}
        else:
            system = {struct.pack('>Q', server):
                      struct.pack('>QQQ', *event.id) +
                      _pack_time(event.timestamp)
                      for server, event in last.items()}
            self.stores = {'SYSTEM': system, 'LATEST_DATA': latest,
                           'LATEST_TYPE': latest_type,
                           'ORDERED_DATA': series,
                           'ORDERED_PARTITION': partitions,
                           'ORDERED_COUNT': counts,
                           'REF': {struct.pack('>QQQ', *k): b''.join(v)
                                   for k, v in refs.items()}}
        # events which are not stored do not exist
        stored = {event.id: event for event, _ in self.latest.values()}
        for items in self.partitions:
            stored.update((event.id, event) for _, event, __ in items)
        self.stored = stored
        self.last = last

    def write(self, path):
        env = patches.real_environment(str(path), map_size=2**40,
                                       subdir=False, max_dbs=9)
        try:
            dbs = {name: env.open_db(name.encode('utf-8'))
                   for name in self.stores}
            with env.begin(write=True) as txn:
                for name, items in self.stores.items():
                    for key, value in items.items():
                        txn.put(key, value, db=dbs[name])
        finally:
            env.close()


def convert_run(case, ctx):
    old = _Old(case)
    src = ctx.tmp / 'src.db'
    dst = ctx.tmp / f'dst{case["suffix"]}'
    old.write(src)
    before = _dump(src, old.stores)
    if case['existing']:
        dst.write_bytes(b'content')
    main = hat.event.backends.lmdb.convert.main.main
    status, _ = _execute(main, [src, dst])
    check(_dump(src, old.stores) == before, 'source is changed')
    if case['existing']:
        check(status != 0 and dst.read_bytes() == b'content',
              'existing file is overwritten')
        ctx.label('existing destination')
        return
    check(status == 0, 'conversion failed with %r', status)
    again = ctx.tmp / 'again'
    status, _ = _execute(main, [dst, again])
    check(status != 0 and not again.exists(), 'conversion of current version')

    dump = {name: items or {} for name, items in _dump(dst, STORES).items()}
    latest_refs = []
    series_refs = []
    for key, value in dump['REF'].items():
        latest, series = _refs(value)
        latest_refs.extend((key, i) for i in latest)
        series_refs.extend((key, i) for i in series)
    check(sorted(i for _, i in latest_refs) == sorted(dump['LATEST_DATA']) and
          sorted(i for i, _ in latest_refs) == sorted(
              struct.pack('>QQQ', *event.id)
              for event, _ in old.latest.values()),
          'references of latest events %r', latest_refs)
    check(sorted(i for _, i in series_refs) == sorted(
              dump['TIMESERIES_DATA']) and
          all(item[-24:] == key for key, item in series_refs),
          'references of time series events %r', series_refs)
    counts = collections.Counter(i[:8] for i in dump['TIMESERIES_DATA'])
    check({key: _uint(value) for key, value in
           dump['TIMESERIES_COUNT'].items() if _uint(value)} == counts,
          'counts %r, expected %r', dump['TIMESERIES_COUNT'], counts)

    async def open_backend(latest, parts):
        conf = lmdbm.backend_conf(
            case['pool'], {'latest': latest, 'parts': parts,
                           'conditions': []}, dst)
        conf['timeseries_max_results'] = 100_000
        return await lmdb_info.create(conf, None, None)

    async def query(backend, params):
        return gen.result_of(await backend.query(params))

    parts = [[i, None] for i in range(len(case['pool']))]
    keys = [(i['by_source'], _canonical(i)) for i in case['pool']]

    async def main(loop):
        # order of partitions selects the one which is used
        for i, items in enumerate(old.partitions):
            if keys[i] in keys[:i]:
                # not distinguished from already checked partition
                continue
            part = case['pool'][i]
            backend = await open_backend([['*']], [[i, None]])
            events, more = await query(backend, common.QueryTimeseriesParams(
                order=common.Order.ASCENDING,
                order_by=(common.OrderBy.SOURCE_TIMESTAMP
                          if part['by_source']
                          else common.OrderBy.TIMESTAMP),
                max_results=100_000))
            expected = [event for _, event, __ in sorted(
                items, key=lambda i: (i[0], i[1].id))]
            if not any(keys[i] == j for j in keys[i + 1:]):
                check(gen.same(events, expected) and not more,
                      'time series %r, expected %r', events, expected)
            ctx.label('time series events', len(expected))
            await backend.async_close()

        backend = await open_backend([['*']], parts)
        events, _ = await query(backend, common.QueryLatestParams())
        expected = [event for event, _ in old.latest.values()]
        check(gen.same(sorted(events, key=lambda i: i.id),
                       sorted(expected, key=lambda i: i.id)),
              'latest events %r, expected %r', events, expected)
        ctx.label('latest events', len(expected))

        for server in {*old.last, 1, 3}:
            events = []
            more = True
            while more:
                part, more = await query(backend, common.QueryServerParams(
                    server_id=server, persisted=True,
                    last_event_id=events[-1].id if events else None))
                check(part or not more, 'empty page of server events')
                events.extend(part)
            expected = sorted((i for i in old.stored.values()
                               if i.id.server == server),
                              key=lambda i: i.id)
            check(gen.same(events, expected),
                  'server events %r, expected %r', events, expected)
            last = await backend.get_last_event_id(server)
            if old.v06:
                expected = (expected[-1].id if expected
                            else common.EventId(server, 0, 0))
            else:
                expected = (old.last[server].id if server in old.last
                            else common.EventId(server, 0, 0))
            check(last == expected, 'last event id %r, expected %r', last,
                  expected)

        # continued registration
        for server, event in old.last.items():
            if event.id not in old.stored:
                continue
            late = event._replace(timestamp=event.timestamp._replace(
                s=event.timestamp.s - 1), id=event.id._replace(
                    session=event.id.session + 1))
            new = late._replace(timestamp=event.timestamp, type=('new', ))
            await backend.register([event, late, new])
            events, _ = await query(backend, common.QueryLatestParams(
                event_types=[event.type, ('new', )]))
            latest = [old.latest[event.type][0]] if case['latest'] else []
            check(gen.same(sorted(events, key=lambda i: i.id),
                           sorted([*latest, new], key=lambda i: i.id)),
                  'registration after conversion: %r', events)
            await backend.async_close()

            backend = await open_backend([['*']], parts)
            events, _ = await query(backend, common.QueryLatestParams())
            latest = [i for i, _ in old.latest.values()
                      if i.type != new.type]
            check(gen.same(sorted(events, key=lambda i: i.id),
                           sorted([*latest, new], key=lambda i: i.id)),
                  'latest events after registration and reopening %r, '
                  'expected %r', events, [*latest, new])
            break
        await backend.async_close()

    sim.run(main)
    ctx.label(f'version {case["version"]}')
    ctx.nontrivial = len(old.stored) > 2


def great_convert_strategy():
    return st.fixed_dictionaries({
        'great': _great,
        'version': st.sampled_from(['0.6', '0.7']),
        'server': st.sampled_from([0, 1, 5]),
        'latest': st.sampled_from([True, True, True, False]),
        'first_ref': st.sampled_from([0, 1, 2, 3, 5, 300])})


def great_convert_run(case, ctx):
    great = case['great']
    convert_run({**case, 'pool': great['parts'],
                 'events': [{**i, 'srv': i['srv'] % 2}
                            for i in _great_specs(great)],
                 'suffix': '', 'existing': False}, ctx)
    ctx.nontrivial = great['count'] > 1000


SUBS = [
    Sub('copy', copy_strategy, copy_run, 2500, 30000,
        'databases with more than one stored event'),
    Sub('query', query_strategy, query_run, 3000, 30000,
        'cases with query with more than one printed line'),
    Sub('convert', convert_strategy, convert_run, 1600, 30000,
        'databases with more than two stored events'),
    Sub('great_copy', great_copy_strategy, great_copy_run, 32, 600,
        GREAT_RULE),
    Sub('great_query', great_query_strategy, great_query_run, 32, 600,
        GREAT_RULE),
    Sub('great_convert', great_convert_strategy, great_convert_run, 32, 600,
        GREAT_RULE)]
