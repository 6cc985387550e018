"""Generators of JSON encoded values and their conversion to API values"""
import collections

from hypothesis import strategies as st

from vlib.core import Violation, check

from hat.event import common

def weighted(*pairs):
    """Strategy from (weight, strategy) pairs (`one_of` ignores repetition)"""
    index = [i for i, (w, _) in enumerate(pairs) for _ in range(w)]
    return st.sampled_from(index).flatmap(lambda i: pairs[i][1])


def timing(values):
    """Given delays (negative are iterations of event loop), sometimes any
    number of iterations"""
    return weighted((12, st.sampled_from(values)), (1, st.integers(-60, -4)))


def one_of(*strategies):
    """`one_of` respecting repetition of strategies"""
    if len({id(i) for i in strategies}) == len(strategies):
        return st.one_of(*strategies)
    return weighted(*((1, i) for i in strategies))


def opt(n, strategy):
    """`n` times more often `None` than something"""
    return weighted((n, st.none()), (1, strategy))


text = st.text(alphabet=st.characters(blacklist_categories=['Cs']),
               max_size=6)
segment = st.one_of(
    st.sampled_from(['a', 'b', 'c', '']),
    st.text(alphabet=st.characters(blacklist_characters='?*/',
                                   blacklist_categories=['Cs']), max_size=4))

# around limits of usual encodings of lengths
great_size = st.sampled_from([127, 128, 129, 255, 256, 512, 1000, 4096, 5000,
                              16383, 16384, 16385, 40000, 70000])

great_type = st.one_of(
    st.builds(lambda n, c: ['a', c * n], st.sampled_from([63, 64, 127, 128,
                                                          255, 256, 600]),
              st.sampled_from(['x', 'č', '\U0001f600'])),
    st.builds(lambda n: ['a'] * n, st.sampled_from([5, 31, 63, 64, 127, 128,
                                                    300])))

short_any_type = st.lists(segment, max_size=4)
any_type = weighted((20, short_any_type), (1, great_type))

integer = st.one_of(st.integers(-3, 3), st.integers(-2**40, 2**40),
                    st.integers(-2**70, 2**70))

json_data = st.recursive(
    st.one_of(st.none(), st.booleans(), integer,
              st.floats(allow_nan=False, allow_infinity=False), text),
    lambda c: st.one_of(st.lists(c, max_size=3),
                        st.dictionaries(text, c, max_size=3)),
    max_leaves=6)



def _deep(n, value):
    for i in range(n):
        value = [value] if i % 2 else {'x': value}
    return value


great_json = st.one_of(
    st.builds(lambda n, c: c * n, great_size, st.sampled_from(['x', 'č'])),
    st.builds(lambda n: list(range(n)), st.sampled_from([127, 128, 2000])),
    st.builds(lambda n: {str(i): i for i in range(n)},
              st.sampled_from([127, 128, 1000])),
    st.builds(_deep, st.sampled_from([10, 40]), text))

great_payload = st.one_of(
    st.builds(lambda i: {'json': i}, great_json),
    st.builds(lambda t, n, i: {'bin': [t, bytes(
        (i + j * (j >> 8)) & 0xff for j in range(n)).hex()]},
              text, great_size, st.integers(0, 255)),
    st.builds(lambda n: {'bin': ['t' * n, '00']}, great_size))

payload = weighted(
    (12, st.none()),
    (12, st.builds(lambda i: {'json': i}, json_data)),
    (12, st.builds(lambda t, d: {'bin': [t, d.hex()]}, text,
                   st.binary(max_size=8))),
    (1, great_payload))

us = st.one_of(st.integers(0, 999_999), st.sampled_from([0, 1, 999_999]))
timestamp = st.tuples(
    st.one_of(st.integers(-2**63, 2**63 - 1), st.integers(-3, 3),
              st.integers(-2**32, 2**32)), us).map(list)

# integers of serialized messages are 64 bit signed
uint = st.one_of(st.integers(0, 4), st.integers(0, 2**63 - 1))
event_id = st.tuples(uint, uint, uint).map(list)

event = st.fixed_dictionaries({
    'id': event_id, 'type': any_type, 't': timestamp,
    'st': st.none() | timestamp, 'payload': payload})

register_event = st.fixed_dictionaries({
    'type': any_type, 'st': st.none() | timestamp, 'payload': payload})

query_type = st.builds(lambda head, tail: [*head, *tail],
                       st.lists(segment | st.just('?'), max_size=3),
                       st.sampled_from([[], [], ['*']]))

opt_types = st.none() | st.lists(query_type, max_size=3)

latest_params = st.fixed_dictionaries({'q': st.just('latest'),
                                       'types': opt_types})
timeseries_params = st.fixed_dictionaries({
    'q': st.just('timeseries'), 'types': opt_types,
    't_from': st.none() | timestamp, 't_to': st.none() | timestamp,
    'st_from': st.none() | timestamp, 'st_to': st.none() | timestamp,
    'desc': st.booleans(), 'by_source': st.booleans(),
    'max': st.none() | st.integers(0, 10000), 'last': st.none() | event_id})
server_params = st.fixed_dictionaries({
    'q': st.just('server'), 'server': uint, 'persisted': st.booleans(),
    'max': st.none() | st.integers(0, 10000), 'last': st.none() | event_id})
params = st.one_of(latest_params, timeseries_params, timeseries_params,
                   server_params)


# conversion of JSON encoded values to API values

def to_ts(i):
    return common.Timestamp(*i) if i is not None else None


def to_id(i):
    return common.EventId(*i) if i is not None else None


def to_types(i):
    return [tuple(j) for j in i] if i is not None else None


def to_payload(i):
    if i is None:
        return None
    if 'json' in i:
        return common.EventPayloadJson(i['json'])
    return common.EventPayloadBinary(i['bin'][0], bytes.fromhex(i['bin'][1]))


def to_event(i):
    return common.Event(id=to_id(i['id']), type=tuple(i['type']),
                        timestamp=to_ts(i['t']),
                        source_timestamp=to_ts(i['st']),
                        payload=to_payload(i['payload']))


def to_register_event(i):
    return common.RegisterEvent(type=tuple(i['type']),
                                source_timestamp=to_ts(i['st']),
                                payload=to_payload(i['payload']))


def to_params(i):
    if i['q'] == 'latest':
        return common.QueryLatestParams(event_types=to_types(i['types']))

    if i['q'] == 'timeseries':
        return common.QueryTimeseriesParams(
            event_types=to_types(i['types']),
            t_from=to_ts(i['t_from']), t_to=to_ts(i['t_to']),
            source_t_from=to_ts(i['st_from']), source_t_to=to_ts(i['st_to']),
            order=(common.Order.DESCENDING if i['desc']
                   else common.Order.ASCENDING),
            order_by=(common.OrderBy.SOURCE_TIMESTAMP if i['by_source']
                      else common.OrderBy.TIMESTAMP),
            max_results=i['max'], last_event_id=to_id(i['last']))

    return common.QueryServerParams(
        server_id=i['server'], persisted=i['persisted'],
        max_results=i['max'], last_event_id=to_id(i['last']))


# strict comparison (True is not 1, 1 is not 1.0, any bytes-like equals bytes)

def norm(x):
    """Canonical comparable form, distinguishing all types"""
    if isinstance(x, tuple) and hasattr(x, '_fields'):
        return (type(x).__name__,
                *((k, norm(v)) for k, v in zip(x._fields, x)))
    if x is None or isinstance(x, (bool, int, str)):
        return (type(x).__name__, x)
    if isinstance(x, float):
        return ('float', x.hex())
    if isinstance(x, (bytes, bytearray, memoryview)):
        return ('bytes', bytes(x))
    if isinstance(x, dict):
        return ('dict', tuple(sorted((k, norm(v)) for k, v in x.items())))
    if isinstance(x, tuple):
        return ('tuple', *(norm(i) for i in x))
    if isinstance(x, (set, frozenset)):
        return ('set', frozenset(norm(i) for i in x))
    try:
        if not isinstance(x, type):
            return ('list', *(norm(i) for i in x))
    except TypeError:
        pass
    return (type(x).__name__, repr(x))


def usual_token(case):
    """Case in which data usually has the configured token (not only 'a')"""
    token = case['token']

    def process(x):
        if isinstance(x, dict):
            return {k: (token if k == 'token' and v == 'a' else process(v))
                    for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [process(i) for i in x]
        return x

    return process(case) if token is not None else case


def collection(items, n):
    """Items as one of collection types allowed by interfaces"""
    if items is None:
        return None
    items = list(items)
    return (items, collections.deque(items), tuple(items))[n % 3]


def same(x, y):
    return norm(x) == norm(y)


def is_event(x):
    return (isinstance(x, common.Event) and
            isinstance(x.id, common.EventId) and
            isinstance(x.type, tuple) and
            isinstance(x.timestamp, common.Timestamp) and
            (x.source_timestamp is None or
             isinstance(x.source_timestamp, common.Timestamp)) and
            (x.payload is None or
             isinstance(x.payload, (common.EventPayloadJson,
                                    common.EventPayloadBinary))))


def events_of(x, what='result'):
    """Validated list of events"""
    try:
        x = list(x)
    except TypeError:
        raise Violation(f'{what} is not a collection of events: {x!r}')
    for i in x:
        check(is_event(i), '%s contains invalid event %r', what, i)
    return x


def result_of(x, what='query result'):
    """Validated (events, more_follows)"""
    check(isinstance(x, common.QueryResult), '%s is %r', what, x)
    check(isinstance(x.more_follows, bool), '%s more_follows is %r', what,
          x.more_follows)
    return events_of(x.events, what), x.more_follows
