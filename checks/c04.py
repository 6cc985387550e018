"""Wire encoding round trips"""
TECHNIQUE = (
    'property-based round trip and differential testing against the '
    'pinned message schema')
NOTE = (
    'Integers are 64 bit signed, the range of the serializer. Encoding '
    'is compared with the schema published with the pinned commit '
    '(vlib/data).')

import pathlib

from hypothesis import strategies as st

from hat import json
from hat import sbs

from vlib import gen
from vlib.core import Sub, VERIF, check

from hat.event import common

# published message schema
_schema = sbs.Repository(*sorted((VERIF / 'vlib/data').glob('*.sbs')))


def _opt(x, fn=lambda i: i):
    return ('none', None) if x is None else ('value', fn(x))


def _ts(x):
    return {'s': x[0], 'us': x[1]}


def _id(x):
    return {'server': x[0], 'session': x[1], 'instance': x[2]}


def _payload(x):
    if 'json' in x:
        return 'json', x['json']
    return 'binary', {'type': x['bin'][0], 'data': bytes.fromhex(x['bin'][1])}


def _reg(x):
    return {'type': x['type'], 'sourceTimestamp': _opt(x['st'], _ts),
            'payload': _opt(x['payload'], _payload)}


def _event(x):
    return {**_reg(x), 'id': _id(x['id']), 'timestamp': _ts(x['t'])}


def _types(x):
    return [list(i) for i in x]


def _params(x):
    if x['q'] == 'latest':
        return 'latest', {'eventTypes': _opt(x['types'], _types)}
    if x['q'] == 'server':
        return 'server', {'serverId': x['server'],
                          'persisted': x['persisted'],
                          'maxResults': _opt(x['max']),
                          'lastEventId': _opt(x['last'], _id)}
    return 'timeseries', {
        'eventTypes': _opt(x['types'], _types),
        'tFrom': _opt(x['t_from'], _ts), 'tTo': _opt(x['t_to'], _ts),
        'sourceTFrom': _opt(x['st_from'], _ts),
        'sourceTTo': _opt(x['st_to'], _ts),
        'order': ('descending' if x['desc'] else 'ascending', None),
        'orderBy': ('sourceTimestamp' if x['by_source'] else 'timestamp',
                    None),
        'maxResults': _opt(x['max']), 'lastEventId': _opt(x['last'], _id)}


def _parse_json(x):
    """JSON payloads of decoded schema data replaced by parsed value"""
    if isinstance(x, tuple) and len(x) == 2 and x[0] == 'json':
        return 'json', json.decode(x[1])
    if isinstance(x, tuple):
        return tuple(_parse_json(i) for i in x)
    if isinstance(x, list):
        return [_parse_json(i) for i in x]
    if isinstance(x, dict):
        return {k: _parse_json(v) for k, v in x.items()}
    return x


def _check(name, sbs_type, value, to_sbs, from_sbs, expected, ctx):
    data = to_sbs(value)
    result = from_sbs(data)
    check(gen.same(result, value), '%s: %r from sbs data of %r',
          name, result, value)

    encoded = bytes(common.sbs_repo.encode(sbs_type, data))
    check(encoded == bytes(_schema.encode(sbs_type, data)),
          '%s: encoding of %r differs from published schema', name, value)
    decoded = _schema.decode(sbs_type, encoded)
    check(gen.same(_parse_json(decoded), expected),
          '%s: message data %r of %r, expected %r', name, decoded, value,
          expected)

    result = from_sbs(common.sbs_repo.decode(sbs_type, encoded))
    check(gen.same(result, value), '%s: %r from message of %r',
          name, result, value)
    ctx.label(name)


def run(case, ctx):
    kind, x = case
    ctx.nontrivial = True

    if kind == 'event':
        _check('event', 'HatEventer.Event', gen.to_event(x),
               common.event_to_sbs, common.event_from_sbs, _event(x), ctx)

    elif kind == 'register':
        _check('register', 'HatEventer.RegisterEvent',
               gen.to_register_event(x), common.register_event_to_sbs,
               common.register_event_from_sbs, _reg(x), ctx)

    elif kind == 'params':
        _check(x['q'], 'HatEventer.QueryParams', gen.to_params(x),
               common.query_params_to_sbs, common.query_params_from_sbs,
               _params(x), ctx)

    elif kind == 'result':
        events, more = x
        _check('result', 'HatEventer.QueryResult',
               common.QueryResult([gen.to_event(i) for i in events], more),
               common.query_result_to_sbs, common.query_result_from_sbs,
               {'events': [_event(i) for i in events],
                'moreFollows': more}, ctx)

    elif kind == 'status':
        _check('status', 'HatEventer.Status', common.Status[x],
               common.status_to_sbs, common.status_from_sbs,
               (x.lower(), None), ctx)

    elif kind == 'timestamp':
        _check('timestamp', 'HatEventer.Timestamp', gen.to_ts(x),
               common.timestamp_to_sbs, common.timestamp_from_sbs, _ts(x),
               ctx)

    else:
        _check('payload', 'HatEventer.EventPayload', gen.to_payload(x),
               common.event_payload_to_sbs, common.event_payload_from_sbs,
               _payload(x), ctx)


def strategy():
    def kind(name, s):
        return st.tuples(st.just(name), s)

    return gen.one_of(
        kind('event', gen.event), kind('event', gen.event),
        kind('register', gen.register_event),
        kind('params', gen.params), kind('params', gen.params),
        kind('result', st.tuples(st.lists(gen.event, max_size=4),
                                 st.booleans())),
        kind('status', st.sampled_from(['STANDBY', 'STARTING', 'OPERATIONAL',
                                        'STOPPING'])),
        kind('timestamp', gen.timestamp),
        kind('payload', gen.payload.filter(lambda i: i is not None)))


SUBS = [
    Sub('roundtrip', strategy, run, 12000, 200000,
        'values of all exchanged structures (optional fields present or '
        'not, JSON of any shape, binary of any bytes, 64 bit and larger '
        'integers); all distinct values count')]
