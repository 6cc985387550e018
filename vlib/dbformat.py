"""Independent reader and writer of LMDB database files of version 0.9"""
import json
import struct

from hat import sbs

from vlib import patches
from vlib.core import VERIF, check

from hat.event import common

VERSION = '0.9'
NAMES = ['SYSTEM_SETTINGS', 'SYSTEM_LAST_EVENT_ID', 'SYSTEM_LAST_TIMESTAMP',
         'REF', 'LATEST_DATA', 'LATEST_TYPE', 'TIMESERIES_DATA',
         'TIMESERIES_PARTITION', 'TIMESERIES_COUNT']

_schema = sbs.Repository(*sorted((VERIF / 'vlib/data').glob('*.sbs')))
_sign = 1 << 63


def canonical(query_types):
    """Sorted query types without the ones covered by `*` of other"""
    items = {tuple(i) for i in query_types}

    def covered(t):
        return any(q != t and q and q[-1] == '*' and len(q) <= len(t) + 1 and
                   t[:len(q) - 1] == q[:-1] for q in items)

    return tuple(sorted(i for i in items if not covered(i)))


def _uint(x):
    return struct.pack('>Q', x)


def _ts(x):
    return struct.pack('>QI', x.s + _sign, x.us)


def _id(x):
    return struct.pack('>QQQ', *x)


def _json(x, style):
    if style % 2:
        return json.dumps(x, ensure_ascii=False, indent=1).encode('utf-8')
    return json.dumps(x, separators=((',', ':') if style % 4 else
                                     (', ', ': '))).encode('utf-8')


def _event(event, style):

    def opt(x, fn):
        return ('none', None) if x is None else ('value', fn(x))

    def payload(x):
        if isinstance(x, common.EventPayloadJson):
            return 'json', _json(x.data, style).decode('utf-8')
        return 'binary', {'type': x.type, 'data': bytes(x.data)}

    def ts(x):
        return {'s': x.s, 'us': x.us}

    return bytes(_schema.encode('HatEventer.Event', {
        'id': dict(zip(('server', 'session', 'instance'), event.id)),
        'type': list(event.type), 'timestamp': ts(event.timestamp),
        'sourceTimestamp': opt(event.source_timestamp, ts),
        'payload': opt(event.payload, payload)}))


def _parse_event(data):

    def ts(x):
        return common.Timestamp(x['s'], x['us'])

    def payload(x):
        if x[0] == 'json':
            return common.EventPayloadJson(json.loads(x[1]))
        return common.EventPayloadBinary(type=x[1]['type'],
                                         data=bytes(x[1]['data']))

    x = _schema.decode('HatEventer.Event', data)
    return common.Event(
        id=common.EventId(x['id']['server'], x['id']['session'],
                          x['id']['instance']),
        type=tuple(x['type']), timestamp=ts(x['timestamp']),
        source_timestamp=(ts(x['sourceTimestamp'][1])
                          if x['sourceTimestamp'][0] == 'value' else None),
        payload=(payload(x['payload'][1])
                 if x['payload'][0] == 'value' else None))


def write(path, pool, store, identifier, style, version=VERSION):
    """Create file with content of the store

    `style` selects identifiers and other details that are not significant.

    """
    step = [1, 1, 3, 255, 256][style % 5]
    latest = {}
    for n, t in enumerate(sorted(store.latest, reverse=style % 3 == 1)):
        latest[t] = 1 + (style % 7) + n * step
    parts = {}
    for n, i in enumerate(sorted(store.parts, reverse=style % 3 == 2)):
        parts[i] = 1 + (style % 11) + n * step

    refs = {}
    tables = {name: {} for name in NAMES}
    settings = tables['SYSTEM_SETTINGS']
    if version is not None:
        settings[_uint(0)] = _json(version, style)
    if identifier is not None:
        settings[_uint(1)] = _json(identifier, style)
    for server, (session, instance) in store.last_id.items():
        tables['SYSTEM_LAST_EVENT_ID'][_uint(server)] = _id(
            (server, session, instance))
    for server, t in store.last_ts.items():
        tables['SYSTEM_LAST_TIMESTAMP'][_uint(server)] = _ts(
            common.Timestamp(*t))
    for t, event in store.latest.items():
        ref = _uint(latest[t])
        tables['LATEST_TYPE'][ref] = _json(list(t), style)
        tables['LATEST_DATA'][ref] = _event(event, style)
        refs.setdefault(event.id, []).append(b'\x04' + ref)
    for i, part in store.parts.items():
        key = _uint(parts[i])
        tables['TIMESERIES_PARTITION'][key] = _json({
            'order': ('sourceTimestamp' if pool[i]['by_source']
                      else 'timestamp'),
            'subscriptions': [list(t) for t in canonical(
                pool[i]['subscriptions'])]}, style)
        tables['TIMESERIES_COUNT'][key] = _uint(len(part))
        for (t, event_id), event in part.items():
            ref = key + _ts(common.Timestamp(*t)) + _id(event_id)
            tables['TIMESERIES_DATA'][ref] = _event(event, style)
            refs.setdefault(event_id, []).append(b'\x06' + ref)
    for event_id, items in refs.items():
        if style % 2:
            items.reverse()
        tables['REF'][_id(event_id)] = b''.join(items)

    env = patches.real_environment(str(path), subdir=False,
                                   max_dbs=len(NAMES), map_size=1 << 30,
                                   sync=False)
    try:
        dbs = {i: env.open_db(i.encode('utf-8')) for i in NAMES}
        with env.begin(write=True) as txn:
            for name, items in tables.items():
                for k, v in items.items():
                    txn.put(k, v, db=dbs[name])
    finally:
        env.close()


def dump(path):
    """Content of file"""
    env = patches.real_environment(str(path), subdir=False,
                                   max_dbs=len(NAMES), readonly=True,
                                   lock=False)
    try:
        with env.begin() as txn:
            names = sorted(bytes(k).decode('utf-8') for k, _ in txn.cursor())
        check(names == sorted(NAMES), 'databases %r, expected %r', names,
              sorted(NAMES))
        result = {}
        for name in NAMES:
            db = env.open_db(name.encode('utf-8'), create=False)
            with env.begin() as txn:
                result[name] = [(bytes(k), bytes(v))
                                for k, v in txn.cursor(db)]
        return result
    finally:
        env.close()


class Content:
    """Interpreted content of file"""

    def __init__(self, path):
        tables = dump(path)

        def uint(data):
            return struct.unpack('>Q', data)[0]

        def ts(data):
            s, us = struct.unpack('>QI', data)
            return s - _sign, us

        def event_id(data):
            return common.EventId(*struct.unpack('>QQQ', data))

        try:
            self.settings = {uint(k): json.loads(v.decode('utf-8'))
                             for k, v in tables['SYSTEM_SETTINGS']}
            self.last_id = {uint(k): event_id(v)
                            for k, v in tables['SYSTEM_LAST_EVENT_ID']}
            self.last_ts = {uint(k): ts(v)
                            for k, v in tables['SYSTEM_LAST_TIMESTAMP']}
            self.types = {uint(k): tuple(json.loads(v.decode('utf-8')))
                          for k, v in tables['LATEST_TYPE']}
            self.latest = {uint(k): _parse_event(v)
                           for k, v in tables['LATEST_DATA']}
            self.parts = {uint(k): json.loads(v.decode('utf-8'))
                          for k, v in tables['TIMESERIES_PARTITION']}
            self.counts = {uint(k): uint(v)
                           for k, v in tables['TIMESERIES_COUNT']}
            self.series = {}
            for k, v in tables['TIMESERIES_DATA']:
                part = self.series.setdefault(uint(k[:8]), {})
                part[ts(k[8:20]), event_id(k[20:])] = _parse_event(v)
            self.refs = {}
            for k, v in tables['REF']:
                refs = self.refs[event_id(k)] = []
                while v:
                    if v[0] == 4:
                        refs.append(uint(v[1:9]))
                        v = v[9:]
                    else:
                        check(v[0] == 6, 'reference of kind %s', v[0])
                        refs.append((uint(v[1:9]), (ts(v[9:21]),
                                                    event_id(v[21:45]))))
                        v = v[45:]
        except (struct.error, ValueError, KeyError, IndexError, TypeError,
                AttributeError) as e:
            check(False, 'file is not in format of version %s: %r', VERSION,
                  e)


__all__ = ['Content', 'canonical', 'dump', 'write']
