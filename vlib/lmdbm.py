"""Generators, reference model and driver of LMDB backend histories"""
import contextlib

from hypothesis import strategies as st

from vlib import gen, model, sim
from vlib.core import HarnessError, Violation, check

from hat.event import common
from hat.event.backends.lmdb import info as lmdb_info

ALPHABET = ['a', 'b', 'c']
_universe = [*model.universe([*ALPHABET, 'ab'], 4)]
NO_PERIOD = 10_000_000

SERVERS = [0, 1, (1 << 63) - 1]
BASE_S = 1_000_000_000


# configuration

short_types = st.sampled_from([['a'], ['b'], ['a', 'b'], ['a', 'c'],
                               ['b', 'a'], ['a', 'b', 'c'], [], ['c'],
                               ['ab']])
types = gen.weighted((60, short_types), (1, gen.great_type))

few_types = st.sampled_from([['a'], ['a'], ['a'], ['b'], ['a', 'b'],
                             ['ab']])

# only types of the finite universe
query_type = gen.one_of(
    short_types, short_types,
    st.sampled_from([['*'], ['*'], ['a', '*'], ['b', '*'], ['?'],
                     ['a', '?'], ['?', 'b'], ['?', '*'], ['a', 'b', '*'],
                     ['?', '?', '*'], ['ab', '*']]))
query_types = gen.one_of(st.just([['*']]), st.just([['*']]),
                        st.lists(query_type, min_size=1, max_size=3),
                        st.lists(query_type, max_size=3))

json_value = st.sampled_from([None, True, False, 0, 1, 1.0, 2.5, 'x', '',
                              [], [1], {}, {'p': 1}, {'p': None},
                              {'p': [True, 'x']}, {'p': {'q': 0}}])

payload = gen.one_of(
    st.none(),
    st.builds(lambda i: {'json': i}, json_value),
    st.builds(lambda i: {'json': i}, json_value),
    st.sampled_from([{'bin': ['', '']}, {'bin': ['t', '00ff']}]))

_path = st.recursive(
    st.sampled_from(['p', 'q', 0, 1, 'zz', -1]),
    lambda c: st.lists(c, max_size=2), max_leaves=3)


@st.composite
def _json_condition(draw):
    cond = {'type': 'json'}
    if draw(st.booleans()):
        cond['data_path'] = draw(_path)
    if draw(st.booleans()):
        cond['data_type'] = draw(st.sampled_from(
            ['null', 'boolean', 'string', 'number', 'array', 'object']))
    if draw(st.booleans()):
        cond['data_value'] = draw(json_value)
    return cond


condition = st.recursive(
    _json_condition(),
    lambda c: st.builds(lambda t, i: {'type': t, 'conditions': i},
                        st.sampled_from(['all', 'any']),
                        st.lists(c, max_size=3)),
    max_leaves=4)

conditions = gen.one_of(
    st.just([]), st.just([]),
    st.lists(st.fixed_dictionaries({'subscriptions': query_types,
                                    'condition': condition}), max_size=2))

simple_conditions = gen.one_of(
    st.just([]), st.builds(
        lambda s, t: [{'subscriptions': s, 'condition': {
            'type': 'json', 'data_type': t}}],
        st.sampled_from([[['*']], [['a', '*']], [['a']]]),
        st.sampled_from(['number', 'string', 'boolean', 'null'])))

partition = st.fixed_dictionaries({
    'by_source': st.booleans(), 'subscriptions': query_types})


def semantic_key(part):
    return (part['by_source'],
            tuple(model.any_matches(t, part['subscriptions'])
                  for t in _universe))


@st.composite
def pool_and_confs(draw, max_confs=1, conditions=st.just([]), limits=None,
                   identifiers=st.none()):
    """Pool of distinct partitions and configurations using them"""
    pool = []
    keys = set()
    for part in draw(gen.one_of(st.lists(partition, max_size=4),
                               st.lists(partition, min_size=2, max_size=4))):
        key = semantic_key(part)
        if key in keys:
            continue
        keys.add(key)
        pool.append(part)
    confs = []
    for _ in range(draw(st.integers(1, max_confs))):
        parts = (draw(st.permutations(range(len(pool)))) if pool else [])
        if confs:
            parts = parts[:draw(st.integers(0, 4))]
        confs.append({
            'latest': draw(query_types),
            'parts': [[i, draw(limits) if limits is not None else None]
                      for i in parts],
            'conditions': draw(conditions),
            # order of subscriptions is not relevant
            'rotate': draw(st.integers(0, 3)),
            'identifier': draw(identifiers)})
    return pool, confs


def backend_conf(pool, conf, path, flush_period=NO_PERIOD,
                 cleanup_period=NO_PERIOD, **kwargs):
    def rotate(items):
        n = conf.get('rotate', 0) % len(items) if items else 0
        return [*items[n:], *items[:n]]

    timeseries = []
    for i, limit in conf['parts']:
        part = {'order_by': ('SOURCE_TIMESTAMP' if pool[i]['by_source']
                             else 'TIMESTAMP'),
                'subscriptions': rotate(pool[i]['subscriptions'])}
        if limit is not None:
            part['limit'] = limit
        timeseries.append(part)
    # size of internal cache has no influence
    size = {1: 1, 2: 0}.get(conf.get('rotate'))
    if size is not None:
        kwargs.setdefault('timeseries_event_type_cache_size', size)
    return {'db_path': str(path), 'identifier': conf.get('identifier'),
            'flush_period': flush_period, 'cleanup_period': cleanup_period,
            'conditions': conf['conditions'],
            'latest': {'subscriptions': rotate(conf['latest'])},
            'timeseries': timeseries, **kwargs}


# events

_source_us = st.sampled_from([0, 0, 1, 999_999])
source_ts = gen.weighted(
    (10, st.none()),
    (10, st.tuples(st.integers(-2, 4), _source_us).map(list)),
    (1, st.tuples(st.sampled_from(
        [-(1 << 63), (1 << 63) - 1, -(1 << 40), 1 << 40, (1 << 32) - 1,
         1 << 32, (1 << 31), -(1 << 31) - 1, 255, 256]), _source_us)
     .map(list)))

# steps of event ids and timestamps relative to previous event of the batch
id_step = st.sampled_from(['next', 'next', 'next', 'session', 'session',
                           'skip', 'far', 'same', 'back'])
t_step = gen.weighted(
    (4, st.sampled_from(['same', 'same', 'us', 's', 's', 'big', 'back_us',
                         'back_s'])),
    (1, st.sampled_from(['same', 'us', 's', 'huge'])))
good_id_step = gen.weighted(
    (3, st.just('next')), (2, st.just('session')), (1, st.just('skip')),
    (1, st.just('far')))
good_t_step = st.sampled_from(['same', 'same', 'us', 's', 's', 'big'])


def event_spec(id_step=id_step, t_step=t_step, types=types, st_=source_ts,
               payload=payload):
    return st.fixed_dictionaries({
        'srv': st.sampled_from([0, 0, 0, 1, 1, 2]), 'id': id_step,
        't': t_step, 'type': types, 'st': st_, 'payload': payload})


class Stamper:
    """Converts event specifications to events"""

    def __init__(self):
        self.ids = {}
        self.t = BASE_S * 1_000_000

    def event(self, spec):
        server = SERVERS[spec['srv']]
        session, instance = self.ids.get(server, (0, 0))
        step = spec['id']
        if step == 'next':
            session, instance = max(session, 1), instance + 1
        elif step == 'session':
            session, instance = session + 1, 1
        elif step == 'skip':
            session, instance = session + 3, 2
        elif step == 'far':
            session, instance = session + (1 << 36), 1 << 40
        elif step == 'back':
            if instance > 1:
                instance -= 1
            else:
                session, instance = max(session - 1, 0), instance + 1
        if step != 'back':
            self.ids[server] = session, instance
        t = self.t + {'same': 0, 'us': 1, 's': 1_000_000,
                      'big': 100_000_000, 'quarter': 250_000,
                      'huge': (1 << 33) * 1_000_000, 'back_us': -1,
                      'back_s': -1_000_000}[spec['t']]
        self.t = max(self.t, t)
        stamp = None
        if spec['st'] is not None:
            stamp = common.Timestamp(*spec['st'])
        return common.Event(
            id=common.EventId(server, session, instance),
            type=tuple(spec['type']),
            timestamp=common.Timestamp(t // 1_000_000, t % 1_000_000),
            source_timestamp=stamp, payload=gen.to_payload(spec['payload']))


# model

_missing = object()


def json_equal(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return (len(a) == len(b) and
                all(json_equal(i, j) for i, j in zip(a, b)))
    if isinstance(a, dict):
        return (a.keys() == b.keys() and
                all(json_equal(v, b[k]) for k, v in a.items()))
    return a == b


def json_get(data, path):
    """Addressed value, null if there isn't any"""
    if isinstance(path, list):
        for i in path:
            data = json_get(data, i)
        return data
    if isinstance(path, str):
        return data.get(path) if isinstance(data, dict) else None
    if isinstance(data, list):
        try:
            return data[path]
        except IndexError:
            return None
    return None


def condition_holds(cond, payload):
    if cond['type'] == 'all':
        return all(condition_holds(i, payload) for i in cond['conditions'])
    if cond['type'] == 'any':
        return any(condition_holds(i, payload) for i in cond['conditions'])
    if not isinstance(payload, common.EventPayloadJson):
        return False
    data = json_get(payload.data, cond.get('data_path', []))
    if 'data_type' in cond:
        t = cond['data_type']
        kind = ('null' if data is None else
                'boolean' if isinstance(data, bool) else
                'string' if isinstance(data, str) else
                'number' if isinstance(data, (int, float)) else
                'array' if isinstance(data, list) else 'object')
        if t != kind:
            return False
    if 'data_value' in cond and not json_equal(cond['data_value'], data):
        return False
    return True


def id_key(event):
    return event.id.session, event.id.instance


def ts_key(t):
    return t.s, t.us


class Store:
    """Everything contained in a database"""

    def __init__(self):
        self.last_id = {}
        self.last_ts = {}
        self.latest = {}
        self.parts = {}

    def copy(self):
        other = Store()
        other.last_id = dict(self.last_id)
        other.last_ts = dict(self.last_ts)
        other.latest = dict(self.latest)
        other.parts = {k: dict(v) for k, v in self.parts.items()}
        return other

    def stored(self, server):
        """All events of a server, by id"""
        result = {}
        for event in self.latest.values():
            if event.id.server == server:
                result[event.id] = event
        for part in self.parts.values():
            for event in part.values():
                if event.id.server == server:
                    result[event.id] = event
        return result

    def all_ids(self):
        result = {i.id for i in self.latest.values()}
        for part in self.parts.values():
            result.update(i.id for i in part.values())
        return result


class Model:

    def __init__(self, pool):
        self.pool = pool
        self.mem = Store()
        self.disk = Store()
        self.conf = None
        self.visible = {}
        self._cache = {}

    def open(self, conf):
        self.conf = conf
        self._cache = {}
        self.mem = self.disk.copy()
        self.visible = {t: e for t, e in self.mem.latest.items()
                        if self.latest_covers(t) and self.holds(e)}

    def flush(self):
        self.disk = self.mem.copy()

    def latest_covers(self, t):
        return model.any_matches(t, self.conf['latest'])

    def holds(self, event):
        return all(condition_holds(i['condition'], event.payload)
                   for i in self.conf['conditions']
                   if model.any_matches(event.type, i['subscriptions']))

    def parts_of(self, event):
        covering = self._cache.get(event.type)
        if covering is None:
            covering = self._cache[event.type] = [
                i for i, _ in self.conf['parts'] if model.any_matches(
                    event.type, self.pool[i]['subscriptions'])]
        for i in covering:
            part = self.pool[i]
            if part['by_source']:
                if event.source_timestamp is not None:
                    yield i, event.source_timestamp
            else:
                yield i, event.timestamp

    def register(self, event):
        """Reason for rejection, None if stored"""
        server = event.id.server
        if id_key(event) <= self.mem.last_id.get(server, (0, 0)):
            return 'id'
        last_ts = self.mem.last_ts.get(server)
        if last_ts is not None and ts_key(event.timestamp) < last_ts:
            return 'timestamp'
        if not self.holds(event):
            return 'conditions'
        stored = False
        if self.latest_covers(event.type):
            prev = self.visible.get(event.type)
            if prev is None or not greater(prev, event):
                self.visible[event.type] = event
                self.mem.latest[event.type] = event
                stored = True
        for i, t in self.parts_of(event):
            key = ts_key(t), event.id
            self.mem.parts.setdefault(i, {})[key] = event
            stored = True
        if not stored:
            return 'not covered'
        self.mem.last_id[server] = id_key(event)
        self.mem.last_ts[server] = ts_key(event.timestamp)
        return None

    def last_event_id(self, server):
        return common.EventId(server, *self.mem.last_id.get(server, (0, 0)))

    # queries

    def latest(self, query_types):
        return {t: e for t, e in self.visible.items()
                if query_types is None or model.any_matches(t, query_types)}

    overlap = staticmethod(lambda x, y: overlap(x, y))

    def plan(self, by_source, query_types):
        """Partition answering the query"""
        for i, _ in self.conf['parts']:
            part = self.pool[i]
            if part['by_source'] != by_source:
                continue
            if query_types is not None and not self.overlap(
                    query_types, part['subscriptions']):
                continue
            return i
        return None

    def timeseries(self, q):
        """Groups of equal timestamp, in order: list of lists of events"""
        i = self.plan(q['by_source'], q['types'])
        if i is None:
            return []
        result = {}
        for (t, _), event in self.mem.parts.get(i, {}).items():
            if not self.holds(event):
                continue
            if q['types'] is not None and not model.any_matches(
                    event.type, q['types']):
                continue
            if not in_range(event.timestamp, q['t_from'], q['t_to']):
                continue
            if q['st_from'] is not None or q['st_to'] is not None:
                if event.source_timestamp is None or not in_range(
                        event.source_timestamp, q['st_from'], q['st_to']):
                    continue
            result.setdefault(t, []).append(event)
        return [result[t] for t in sorted(result, reverse=q['desc'])]


def greater(x, y):
    """Is x after y in natural order"""
    if x.id.server == y.id.server:
        return id_key(x) > id_key(y)
    return ts_key(x.timestamp) > ts_key(y.timestamp)


def in_range(t, t_from, t_to):
    return ((t_from is None or ts_key(t_from) <= ts_key(t)) and
            (t_to is None or ts_key(t) <= ts_key(t_to)))


_overlap_cache = {}


def overlap(x, y):
    """Is there any event type matched by both (over finite universe)"""
    key = (tuple(map(tuple, x)), tuple(map(tuple, y)))
    if key not in _overlap_cache:
        if len(_overlap_cache) > 20000:
            _overlap_cache.clear()
        _overlap_cache[key] = any(
            model.any_matches(t, x) and model.any_matches(t, y)
            for t in _universe)
    return _overlap_cache[key]


def check_groups(result, groups, desc, limit, more, what, ctx=None):
    """Result is limited sequence of groups of equal timestamps

    Relative order of events of different servers inside of a group is not
    specified.

    """
    total = sum(len(i) for i in groups)
    expected = min(total, limit)
    check(len(result) == expected and more == (total > limit),
          '%s: %s events (more_follows %s), expected %s (of %s): %r',
          what, len(result), more, expected, total, [i.id for i in result])
    pos = 0
    for group in groups:
        part = result[pos:pos + len(group)]
        if not part:
            break
        pos += len(part)
        by_server = {}
        for i in group:
            by_server.setdefault(i.id.server, []).append(i)
        for i in by_server.values():
            i.sort(key=id_key, reverse=desc)
        taken = {}
        for event in part:
            server = event.id.server
            n = taken[server] = taken.get(server, 0) + 1
            ok = (n <= len(by_server.get(server, [])) and
                  gen.same(by_server[server][n - 1], event))
            check(ok, '%s: unexpected event %r at position of group %r, '
                  'result %r', what, event, [i.id for i in group],
                  [i.id for i in result])


def check_latest(result, more, expected, what):
    check(not more, '%s: more_follows is set', what)
    by_type = {}
    for event in result:
        check(event.type not in by_type, '%s: two events of type %r', what,
              event.type)
        by_type[event.type] = event
    check(by_type.keys() == expected.keys(),
          '%s: types %r, expected %r', what, sorted(by_type),
          sorted(expected))
    for t, event in by_type.items():
        check(gen.same(event, expected[t]), '%s: %r, expected %r', what,
              event, expected[t])


def check_server(result, more, required, allowed, last, limit, what):
    """required, allowed - dicts of events by id"""
    for i in (required, allowed):
        for event_id in [k for k in i if last is not None and k <= last]:
            del i[event_id]
    prev = last
    for event in result:
        if prev is not None and event.id <= prev:
            check(False, '%s: not ascending after %r: %r', what, last,
                  [i.id for i in result])
        prev = event.id
        if (event.id not in allowed or
                not gen.same(event, allowed[event.id])):
            check(False, '%s: unexpected event %r, allowed %r', what, event,
                  sorted(allowed))
    check(len(result) <= limit, '%s: %s events, limit %s', what, len(result),
          limit)
    if more:
        check(len(result) == limit,
              '%s: more_follows with %s events of limit %s', what,
              len(result), limit)
        end = result[-1].id if result else last
        check(any(end is None or k > end for k in allowed),
              '%s: more_follows but nothing follows', what)
    ids = {i.id for i in result}
    for k in sorted(required):
        if more and (not result or k > result[-1].id):
            break
        if k not in ids:
            check(False, '%s: missing event %r in %r (more_follows %s)', what,
                  k, sorted(ids), more)


# driver

class Driver:
    """Backend under test followed by the model"""

    def __init__(self, pool, confs, path, **kwargs):
        self.pool = pool
        self.confs = confs
        self.path = path
        self.kwargs = kwargs
        self.model = Model(pool)
        self.backend = None
        self.servers = SERVERS
        self.registered = []  # batches given to registered callback
        self.flushed = []
        self.stamper = Stamper()
        self.events = []  # all events given to register
        self.max_results = kwargs.get('timeseries_max_results', 4096)

    async def open(self, i):
        conf = self.confs[i % len(self.confs)]
        self.backend = await lmdb_info.create(
            backend_conf(self.pool, conf, self.path, **self.kwargs),
            lambda i: self.registered.append(list(i)),
            lambda i: self.flushed.append(list(i)))
        self.model.open(conf)

    async def close(self):
        if self.backend:
            backend, self.backend = self.backend, None
            await sim.within(1000, backend.async_close(), 'backend close')
            self.model.flush()

    async def register(self, specs):
        events = [self.stamper.event(i) for i in specs]
        return await self.register_events(events)

    async def register_events(self, events):
        self.events.extend(events)
        reasons = [self.model.register(i) for i in events]
        await self.backend.register(
            gen.collection(events, len(self.events) + len(events)))
        return reasons

    async def flush(self):
        await sim.within(1000, self.backend.flush(), 'flush')
        self.model.flush()

    async def query(self, params, what):
        result = await sim.within(1000, self.backend.query(params), what)
        return gen.result_of(result, what)

    async def check_latest(self, query_types):
        what = f'latest query {query_types}'
        result, more = await self.query(
            common.QueryLatestParams(gen.collection(
                gen.to_types(query_types), len(query_types or []))), what)
        expected = self.model.latest(query_types)
        check_latest(result, more, expected, what)
        return result

    def params(self, q):
        return common.QueryTimeseriesParams(
            event_types=gen.collection(gen.to_types(q['types']),
                                       len(q['types'] or [])),
            t_from=q['t_from'], t_to=q['t_to'],
            source_t_from=q['st_from'], source_t_to=q['st_to'],
            order=(common.Order.DESCENDING if q['desc']
                   else common.Order.ASCENDING),
            order_by=(common.OrderBy.SOURCE_TIMESTAMP if q['by_source']
                      else common.OrderBy.TIMESTAMP),
            max_results=q['max'])

    def resolve(self, spec):
        """Resolve bounds of query specification

        Bound is `None`, [index of event, offset in us] for timestamp or
        [s, us] for source timestamp

        """
        q = dict(spec)
        for k in ('t_from', 't_to'):
            if q[k] is not None:
                i, us = q[k]
                base = (self.events[i % len(self.events)].timestamp
                        if self.events else common.Timestamp(BASE_S, 0))
                us = base.s * 1_000_000 + base.us + us
                q[k] = common.Timestamp(us // 1_000_000, us % 1_000_000)
        for k in ('st_from', 'st_to'):
            q[k] = gen.to_ts(q[k])
        return q

    async def check_timeseries(self, spec):
        q = self.resolve(spec)
        what = f'time series query {q}'
        result, more = await self.query(self.params(q), what)
        groups = self.model.timeseries(q)
        limit = self.max_results
        if q['max'] is not None:
            limit = min(limit, q['max'])
        check_groups(result, groups, q['desc'], limit, more, what)
        return groups

    async def check_server(self, server, persisted, limit, last):
        what = (f'server query of {server} persisted {persisted} limit '
                f'{limit} after {last}')
        result, more = await self.query(
            common.QueryServerParams(server_id=server, persisted=persisted,
                                     max_results=limit, last_event_id=last),
            what)
        disk = self.model.disk.stored(server)
        if persisted:
            required, allowed = disk, dict(disk)
        else:
            required = self.model.mem.stored(server)
            # events on disk which are superseded by cached ones
            allowed = {**disk, **required}
        check_server(result, more, dict(required), allowed, last,
                     min(limit, 4096) if limit is not None else 4096, what)
        return result, more

    async def check_last_ids(self):
        for server in [*self.servers, 99]:
            result = await sim.within(
                1000, self.backend.get_last_event_id(server), 'last id')
            expected = self.model.last_event_id(server)
            check(result == expected and isinstance(result, common.EventId),
                  'last event id of server %s is %r, expected %r', server,
                  result, expected)


ts_query = st.fixed_dictionaries({
    'types': st.none() | query_types,
    't_from': gen.opt(2, st.tuples(st.integers(0, 30),
                                   st.integers(-1, 1))),
    't_to': gen.opt(2, st.tuples(st.integers(0, 30), st.integers(-1, 1))),
    'st_from': gen.opt(3, source_ts),
    'st_to': gen.opt(3, source_ts),
    'desc': st.booleans(), 'by_source': st.booleans(),
    'max': st.none() | st.integers(0, 6)})

full_query = {'types': None, 't_from': None, 't_to': None, 'st_from': None,
              'st_to': None, 'desc': False, 'by_source': False, 'max': None}

sim_conf = st.fixed_dictionaries({
    'exec_start': st.lists(st.sampled_from([0, 0, 1, 5, -2]), max_size=3),
    'exec_done': st.lists(st.sampled_from([0, 0, 1, 5, -2]), max_size=3)})


@contextlib.asynccontextmanager
async def driver(*args, **kwargs):
    d = Driver(*args, **kwargs)
    try:
        yield d
    except BaseException:
        if d.backend:
            d.backend.close()
        raise
    else:
        await d.close()


__all__ = ['HarnessError', 'Violation']


# histories

def reg_op(spec=None, max_size=5):
    spec = event_spec() if spec is None else spec
    return st.tuples(st.just('reg'),
                     st.lists(spec, min_size=1, max_size=max_size))


def batches(spec=None, max_size=5):
    return reg_op(spec, max_size)


flush_op = st.just(['flush'])
reopen_op = st.tuples(st.just('reopen'), st.integers(0, 3))
latest_op = st.tuples(st.just('latest'),
                      st.none() | st.lists(query_type, max_size=4))
ts_op = st.tuples(st.just('ts'), ts_query)
server_op = st.tuples(st.just('server'), st.sampled_from([0, 0, 1, 2, 3]),
                      st.booleans(), st.none() | st.integers(0, 5),
                      st.none() | st.integers(0, 30))
again_op = st.tuples(st.just('again'), st.integers(0, 30),
                     st.integers(1, 5))


async def play(d, ops, ctx, after=None):
    """Play operations, `after(op)` is called after each"""
    for op in ops:
        if op[0] == 'reg':
            for reason in await d.register(op[1]):
                ctx.label(f'event {reason or "stored"}')

        elif op[0] == 'again':
            events = d.events[op[1]:op[1] + op[2]]
            if events:
                await d.register_events(list(events))

        elif op[0] == 'flush':
            await d.flush()

        elif op[0] == 'reopen':
            await d.close()
            await d.open(op[1])

        elif op[0] == 'latest':
            result = await d.check_latest(op[1])
            ctx.label('latest query')
            if result:
                ctx.label('latest query with result')

        elif op[0] == 'ts':
            groups = await d.check_timeseries(op[1])
            ctx.label('timeseries query')
            if groups:
                ctx.label('timeseries query with result')

        elif op[0] == 'server':
            server = [*SERVERS, 99][op[1]]
            last = None
            if op[4] is not None:
                ids = [i.id for i in d.events if i.id.server == server]
                last = (ids[op[4] % len(ids)] if ids
                        else common.EventId(server, op[4], 0))
            result, _ = await d.check_server(server, op[2], op[3], last)
            ctx.label('server query')
            if result:
                ctx.label('server query with result')

        else:
            raise HarnessError(f'invalid operation {op}')

        if after:
            await after(op)


async def check_everything(d):
    """Compare everything visible with the model"""
    await d.check_latest(None)
    for by_source in (False, True):
        await d.check_timeseries({**full_query, 'by_source': by_source})
    for i, _ in d.model.conf['parts']:
        part = d.pool[i]
        await d.check_timeseries({**full_query,
                                  'by_source': part['by_source'],
                                  'types': part['subscriptions']})
    for server in SERVERS:
        await d.check_server(server, True, None, None)
        await d.check_server(server, False, None, None)
    await d.check_last_ids()


def run_history(case, ctx, after=None, final=check_everything, **kwargs):
    async def main(loop):
        async with driver(case['pool'], case['confs'], ctx.tmp / 'db',
                          **kwargs) as d:
            await d.open(0)
            await play(d, case['ops'], ctx,
                       (lambda op: after(d, op)) if after else None)
            if final:
                await final(d)
            return d

    return sim.run(main, case.get('sim'))


def history(ops, max_ops=12, **kwargs):
    @st.composite
    def strategy(draw):
        pool, confs = draw(pool_and_confs(**kwargs))
        return {'pool': pool, 'confs': confs,
                'ops': draw(gen.one_of(
                    st.lists(ops, max_size=max_ops),
                    st.lists(ops, min_size=min(8, max_ops),
                             max_size=max(max_ops, 8) + 6))),
                'sim': draw(sim_conf)}

    return strategy()


# great numbers of servers, types, partitions and events


@st.composite
def great(draw):
    size = st.sampled_from([1, 3, 12, 20, 70, 300])
    many = draw(st.sampled_from(['servers', 'types', 'parts', 'events', None]))
    types = 2000 if many == 'types' else draw(size)
    parts = 300 if many == 'parts' else draw(size)
    events = 6000 if many == 'events' else draw(
        st.sampled_from([30, 300, 2000]))
    return {
        'servers': 300 if many == 'servers' else draw(size),
        'types': types, 'parts': parts,
        'latest': draw(st.sampled_from(['all', 'all', 'some'])),
        'by_source': draw(st.sampled_from([0, 1, 2, 3])),
        # partition contains several types
        'shared': draw(st.sampled_from([0, 1, 7])),
        'any': draw(st.sampled_from([None, 0, 9, 10, 200])),
        'order': draw(st.sampled_from([1, 1, 7, 11])),
        'batches': [
            [events // n, draw(st.sampled_from([1, 7, 101])),
             draw(st.sampled_from([1, 3, 97])),
             draw(st.sampled_from(['', '', 'flush', 'reopen', 'again']))]
            for n in [draw(st.sampled_from([1, 2, 5]))] for _ in range(n)],
        'queries': draw(st.lists(
            st.fixed_dictionaries({
                'types': st.none() | st.lists(st.integers(0, 2500),
                                              min_size=1, max_size=2),
                't_from': gen.opt(3, st.tuples(st.integers(0, 6000),
                                               st.just(0))),
                't_to': gen.opt(3, st.tuples(st.integers(0, 6000),
                                             st.just(0))),
                'st_from': st.none(), 'st_to': st.none(),
                'desc': st.booleans(), 'by_source': st.booleans(),
                'max': st.sampled_from([None, 0, 1, 100, 1000, 5000])}),
            min_size=1, max_size=4))}


def run_great(case, ctx, verify, **kwargs):
    """`verify(d)` is called after each batch"""
    types = [['t', str(i)] if i % 3 else ['t', str(i), 'x']
             for i in range(case['types'])]
    count = case['parts']
    pool = []
    for i in range(count):
        subs = [types[(i + j * count) % len(types)]
                for j in range(case['shared'] + 1)]
        if i == case['any']:
            subs = [['*']]
        else:
            # partitions are distinct
            subs = [*subs, ['part', str(i)]]
        pool.append({'by_source': bool(case['by_source'] and
                                       i % 4 < case['by_source']),
                     'subscriptions': [j for n, j in enumerate(subs)
                                       if j not in subs[:n]]})
    confs = []
    for n in range(2):
        order = [(i * (case['order'] if n else 1)) % count
                 for i in range(count)]
        if len(set(order)) < count:
            order = list(reversed(range(count)))
        confs.append({
            'latest': [['*']] if case['latest'] == 'all' else types[::2],
            'parts': [[i, None] for i in order], 'conditions': []})
    last = {}
    clock = [BASE_S * 1_000_000]

    def event(n, type_step, server_step):
        server = SERVERS[1] + (n // 3 * server_step) % case['servers']
        session, instance = last.get(server, (0, 0))
        last[server] = ((session + 1, 1) if n % 5 == 0
                        else (max(session, 1), instance + 1))
        clock[0] += [0, 1, 1_000_000][n % 3]
        t = common.Timestamp(clock[0] // 1_000_000, clock[0] % 1_000_000)
        return common.Event(
            id=common.EventId(server, *last[server]),
            type=tuple(types[n * type_step % len(types)]), timestamp=t,
            source_timestamp=(None if n % 4 == 0
                              else t._replace(s=t.s - n % 11)),
            payload=common.EventPayloadJson(n))

    def concrete_overlap(x, y):
        # query types do not contain wildcards
        return any(model.any_matches(tuple(i), y) for i in x)

    async def main(loop):
        async with driver(pool, confs, ctx.tmp / 'db', **kwargs) as d:
            d.types = types
            d.servers = [SERVERS[1] + i for i in range(case['servers'])]
            d.model.overlap = concrete_overlap
            await d.open(0)
            n = 0
            for i, (size, type_step, server_step, then) in enumerate(
                    case['batches']):
                events = [event(n + j, type_step, server_step)
                          for j in range(size)]
                n += size
                await d.register_events(events)
                if then == 'flush':
                    await d.flush()
                elif then == 'reopen':
                    await d.close()
                    await d.open(i + 1)
                elif then == 'again':
                    await d.register_events(d.events[::3])
                d.final = i == len(case['batches']) - 1
                await verify(d)
            await d.close()
            await d.open(1)
            await verify(d)

    sim.run(main)
    ctx.nontrivial = max(case['servers'], case['types'],
                         case['parts']) > 10 or sum(
                             i[0] for i in case['batches']) > 1000
    for k in ('servers', 'types', 'parts'):
        ctx.label(f'{k} more than 10', case[k] > 10)


GREAT_RULE = ('more than 10 servers, types or partitions, or more than 1000 '
              'events')
