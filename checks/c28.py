"""Memory and dummy backends"""
TECHNIQUE = ('stateful model-based property testing of the memory and the '
             'dummy backend')
NOTE = ('Events have per server ascending ids and non-decreasing '
        'timestamps; relative order of events of different servers with '
        'equal timestamp is not decided.')

import asyncio

from hypothesis import strategies as st

from vlib import gen, lmdbm, model, sim
from vlib.core import Sub, check

from hat import aio
from hat.event import common
from hat.event.backends import dummy, memory

_spec = lmdbm.event_spec(
    id_step=lmdbm.good_id_step, t_step=lmdbm.good_t_step,
    types=gen.one_of(lmdbm.types, lmdbm.types, gen.any_type),
    payload=gen.one_of(st.none(), gen.payload))

# events of single server out of order (natural order of events of different
# servers with equal timestamps is not transitive)
_mixed = st.builds(
    lambda specs, srv, mix: ['mixed', [{**i, 'srv': srv} for i in specs],
                             mix],
    st.lists(lmdbm.event_spec(
        id_step=lmdbm.good_id_step,
        t_step=st.sampled_from(['same', 'same', 'us']),
        types=st.sampled_from(['a', 'b']).map(lambda i: [i]),
        payload=st.none()), min_size=2, max_size=6),
    st.integers(0, 2), st.integers(1, 5))

_last = gen.opt(2, st.integers(0, 30))

_ops = gen.one_of(
    lmdbm.reg_op(_spec), lmdbm.reg_op(_spec), lmdbm.reg_op(_spec),
    _mixed, _mixed,
    st.just(['reg', []]), st.just(['flush']), lmdbm.latest_op,
    st.tuples(st.just('ts'), lmdbm.ts_query, _last),
    st.tuples(st.just('ts'), lmdbm.ts_query, _last),
    st.tuples(st.just('server'), st.sampled_from([0, 0, 1, 2, 3]),
              st.booleans(), st.none() | st.integers(0, 5), _last),
    st.tuples(st.just('page'), lmdbm.ts_query, st.integers(1, 4)))


def strategy():
    return st.fixed_dictionaries({
        'callbacks': st.sampled_from(['sync', 'async', 'async', 'none']),
        'ops': gen.one_of(st.lists(_ops, min_size=1, max_size=14),
                         st.lists(_ops, min_size=10, max_size=20))})


def many_strategy():
    spec = lmdbm.event_spec(
        id_step=lmdbm.good_id_step, t_step=lmdbm.good_t_step,
        payload=st.none())
    limit = st.sampled_from([None, 0, 5, 100, 1024, 4096, 5000])

    def query(max_):
        return {**lmdbm.full_query, 'max': max_}

    ops = gen.one_of(
        st.tuples(st.just('bulk'), st.lists(spec, min_size=1, max_size=3),
                  st.sampled_from([10, 300, 1000, 2000])),
        st.tuples(st.just('ts'), st.builds(query, limit), _last),
        st.tuples(st.just('ts'), st.builds(
            lambda q, n: {**q, 'max': n}, lmdbm.ts_query, limit), _last),
        st.tuples(st.just('server'), st.sampled_from([0, 1, 2]),
                  st.booleans(), limit, _last))
    return st.fixed_dictionaries({
        'callbacks': st.sampled_from(['sync', 'async', 'none']),
        'ops': st.builds(lambda i, j: [['bulk', i, 2100], *j],
                         st.lists(spec, min_size=1, max_size=3),
                         st.lists(ops, min_size=2, max_size=6))})


def many_run(case, ctx):
    run_memory(case, ctx)
    ctx.nontrivial = sum(
        op[2] * len(op[1]) for op in case['ops'] if op[0] == 'bulk') > 4100


def great_strategy():
    return st.fixed_dictionaries({
        'events': st.sampled_from([11_000, 34_000, 70_000, 140_000]),
        'batch': st.sampled_from([100, 1000, 5000, 140_000]),
        'servers': st.sampled_from([1, 3, 300])})


def great_run(case, ctx):
    """Great number of events, the first ones differ from others"""
    count, servers = case['events'], case['servers']

    async def main(loop):
        backend = await aio.call(
            memory.info.create,
            {'module': 'hat.event.backends.memory'}, None, None)
        events = [common.Event(
            id=common.EventId(i % servers, 1 + i // 1000, 1 + i % 1000),
            type=('first', str(i)) if i < 10 else ('x', ),
            timestamp=common.Timestamp(lmdbm.BASE_S, i),
            source_timestamp=None, payload=None) for i in range(count)]
        first = common.Event(
            id=common.EventId(1000, 1, 1), type=('a', ),
            timestamp=common.Timestamp(lmdbm.BASE_S, 0),
            source_timestamp=None, payload=None)
        await backend.register([first])
        for i in range(0, count, case['batch']):
            await backend.register(events[i:i + case['batch']])
        events.insert(0, first)

        async def query(params):
            result = gen.result_of(await backend.query(params))
            return [*result[0]], result[1]

        result, more = await query(common.QueryTimeseriesParams(
            order=common.Order.ASCENDING))
        check(len(result) == len(events) and not more and
              {i.id for i in result} == {i.id for i in events},
              'time series has %s events, expected %s', len(result),
              len(events))
        result, more = await query(common.QueryTimeseriesParams(
            event_types=[('first', '?')], order=common.Order.ASCENDING))
        check(not more and result == events[1:11], 'first events %r', result)
        result, more = await query(common.QueryLatestParams(
            [('a', ), ('first', '*')]))
        check(not more and sorted(i.id for i in result) ==
              sorted(i.id for i in events[:11]), 'latest events %r', result)
        for server in {0, servers - 1, 1000}:
            expected = [i for i in events if i.id.server == server]
            last = await backend.get_last_event_id(server)
            check(last == max(i.id for i in expected), 'last event id %r',
                  last)
            result, more = await query(common.QueryServerParams(server))
            check(not more and result == expected,
                  'server query returned %s events, expected %s',
                  len(result), len(expected))
        await sim.within(100, backend.async_close(), 'close')
        ctx.nontrivial = count > 65536

    sim.run(main)


class _Memory:
    """Driver of memory backend with a plain list as reference"""

    def __init__(self, case, ctx):
        self.ctx = ctx
        self.registered = []
        self.flushed = []
        self.batches = []
        self.events = []
        self.stamper = lmdbm.Stamper()
        kind = case['callbacks']

        self.backend = None

        async def check_stored(events):
            # reported events can be queried from this moment
            servers = {}
            for event in events:
                servers.setdefault(event.id.server, set()).add(event.id)
            for server, ids in servers.items():
                result, _ = gen.result_of(await self.backend.query(
                    common.QueryServerParams(server)))
                missing = ids - {i.id for i in result}
                check(not missing, 'reported events %r are not in answer of '
                      'query', missing)

        def callback(items):
            def cb(events):
                items.append(list(events))

            async def async_cb(events):
                if self.backend and len(events) < 100:
                    await check_stored([*events])
                await asyncio.sleep(0.01)
                items.append(list(events))

            return {'sync': cb, 'async': async_cb, 'none': None}[kind]

        self.args = callback(self.registered), callback(self.flushed)
        self.kind = kind

    def check_callbacks(self):
        if self.kind == 'none':
            return
        for name, items in (('registered', self.registered),
                            ('flushed', self.flushed)):
            check(len(items) == len(self.batches) and
                  all(gen.same(i, j) for i, j in zip(items, self.batches)),
                  '%s callback got %r, expected %r', name, items,
                  self.batches)


async def _register(s, backend, specs, mix=0):
    events = [s.stamper.event(i) for i in specs]
    if mix:
        # list of events is not sorted
        events = [*events[mix % len(events):], *events[:mix % len(events)]]
        if mix % 2:
            events.reverse()
    s.batches.append(events)
    s.events.extend(events)
    result = await backend.register(gen.collection(events, len(s.batches)))
    check(result is not None and gen.same(list(result), events),
          'register returned %r, expected %r', result, events)
    s.check_callbacks()


def _resolve(s, spec):
    d = lmdbm.Driver([], [], None)
    d.events = s.events
    q = d.resolve(spec)
    return q, d.params(q)


def _groups(s, q):
    result = {}
    for event in s.events:
        t = event.source_timestamp if q['by_source'] else event.timestamp
        if t is None:
            continue
        if q['types'] is not None and not model.any_matches(event.type,
                                                            q['types']):
            continue
        if not lmdbm.in_range(event.timestamp, q['t_from'], q['t_to']):
            continue
        if q['st_from'] is not None or q['st_to'] is not None:
            if event.source_timestamp is None or not lmdbm.in_range(
                    event.source_timestamp, q['st_from'], q['st_to']):
                continue
        result.setdefault(lmdbm.ts_key(t), []).append(event)
    return [result[t] for t in sorted(result, reverse=q['desc'])]


def _latest(events):
    """Naturally greatest event of each type; ties of servers are open"""
    result = {}
    for event in events:
        best = result.setdefault(event.type, [])
        if any(lmdbm.greater(i, event) for i in best):
            continue
        best[:] = [i for i in best if not lmdbm.greater(event, i)]
        best.append(event)
    return result


async def check_latest(backend, s, types):
    result, more = gen.result_of(await backend.query(
        common.QueryLatestParams(gen.collection(gen.to_types(types),
                                                len(types or [])))))
    expected = _latest(e for e in s.events if types is None or
                       model.any_matches(e.type, types))
    check(not more, 'more_follows of latest query')
    check(len({i.type for i in result}) == len(result) == len(expected),
          'latest query %r: %r, expected %r', types, result, expected)
    for i in result:
        check(any(gen.same(i, j) for j in expected.get(i.type, [])),
              'latest query %r: %r, expected %r', types, i,
              expected.get(i.type))


def run_memory(case, ctx):
    async def main(loop):
        s = _Memory(case, ctx)
        backend = await aio.call(memory.info.create, {}, *s.args)
        s.backend = backend
        for op in case['ops']:
            if op[0] == 'reg':
                await _register(s, backend, op[1])

            elif op[0] == 'bulk':
                await _register(s, backend, op[1] * op[2])

            elif op[0] == 'mixed':
                await _register(s, backend, op[1], op[2])

            elif op[0] == 'flush':
                await backend.flush()

            elif op[0] == 'latest':
                await check_latest(backend, s, op[1])
                ctx.label('latest query')

            elif op[0] == 'ts':
                q, params = _resolve(s, op[1])
                groups = _groups(s, q)
                limit = q['max'] if q['max'] is not None else 10**9
                flat = [i for g in groups for i in g]
                if op[2] is not None and s.events:
                    # ask for continuation after an event of unlimited answer
                    full, _ = gen.result_of(await backend.query(
                        params._replace(max_results=None)))
                    lmdbm.check_groups(full, groups, q['desc'], 10**9, False,
                                       f'time series query {q}')
                    last = s.events[op[2] % len(s.events)]
                    ids = [i.id for i in full]
                    if last.id not in ids:
                        # sentinel is never found
                        expected = []
                    else:
                        expected = full[ids.index(last.id) + 1:]
                    result, more = gen.result_of(await backend.query(
                        params._replace(last_event_id=last.id)))
                    check(gen.same(result, expected[:limit]) and
                          more == (len(expected) > limit),
                          'time series query %r after %r: %r more_follows '
                          '%s, expected %r', q, last.id, result, more,
                          expected)
                    ctx.label('continued query')
                else:
                    result, more = gen.result_of(await backend.query(params))
                    lmdbm.check_groups(result, groups, q['desc'], limit,
                                       more, f'time series query {q}')
                if len(flat) > 1:
                    ctx.label('time series query of several events')
                    ctx.nontrivial = True

            elif op[0] == 'page':
                q, params = _resolve(s, op[1])
                full, _ = gen.result_of(await backend.query(
                    params._replace(max_results=None)))
                result = []
                last = None
                for _ in range(len(s.events) + 1):
                    page, more = gen.result_of(await backend.query(
                        params._replace(max_results=op[2],
                                        last_event_id=last)))
                    result.extend(page)
                    if not more:
                        break
                    check(len(page) == op[2], 'incomplete page')
                    last = page[-1].id
                check(not more and gen.same(result, full),
                      'pages %r, expected %r', result, full)

            elif op[0] == 'server':
                server = [*lmdbm.SERVERS, 99][op[1]]
                last = None
                if op[4] is not None and s.events:
                    last = s.events[op[4] % len(s.events)].id
                    last = last._replace(server=server)
                expected = sorted(
                    (e for e in s.events if e.id.server == server and
                     (last is None or e.id > last)), key=lambda e: e.id)
                limit = op[3] if op[3] is not None else 10**9
                result, more = gen.result_of(await backend.query(
                    common.QueryServerParams(
                        server_id=server, persisted=op[2],
                        max_results=op[3], last_event_id=last)))
                check(gen.same(result, expected[:limit]) and
                      more == (len(expected) > limit),
                      'server query %r after %r: %r more_follows %s, '
                      'expected %r', server, last, result, more, expected)
                ctx.label('server query')
                ctx.nontrivial = ctx.nontrivial or bool(result)

            await check_latest(backend, s, None)

            for server in [*lmdbm.SERVERS, 99]:
                expected = max(
                    (e.id for e in s.events if e.id.server == server),
                    default=common.EventId(server, 0, 0))
                result = await backend.get_last_event_id(server)
                check(result == expected, 'last event id %r, expected %r',
                      result, expected)
        s.check_callbacks()
        await backend.async_close()
        check(backend.is_closed, 'backend is not closed')

    sim.run(main)


def run_dummy(case, ctx):
    async def main(loop):
        s = _Memory(case, ctx)
        backend = await aio.call(dummy.info.create, {}, *s.args)
        for op in case['ops']:
            if op[0] in ('reg', 'mixed'):
                await _register(s, backend, op[1])
                ctx.nontrivial = ctx.nontrivial or bool(op[1])
                continue
            elif op[0] == 'flush':
                await backend.flush()
                continue
            elif op[0] == 'latest':
                params = common.QueryLatestParams(gen.to_types(op[1]))
            elif op[0] in ('ts', 'page'):
                _, params = _resolve(s, op[1])
            else:
                params = common.QueryServerParams(
                    server_id=[*lmdbm.SERVERS, 99][op[1]], persisted=op[2])
            result, more = gen.result_of(await backend.query(params))
            check(not result and not more, 'query %r: %r', params, result)
            for server in lmdbm.SERVERS:
                result = await backend.get_last_event_id(server)
                check(result == common.EventId(server, 0, 0),
                      'last event id %r', result)
        s.check_callbacks()
        await backend.async_close()
        check(backend.is_closed, 'backend is not closed')

    sim.run(main)


SUBS = [
    Sub('memory', strategy, run_memory, 3000, 80000,
        'histories with a query answered with several events'),
    Sub('many', many_strategy, many_run, 64, 1000,
        'more than 4100 events'),
    Sub('great', great_strategy, great_run, 16, 160,
        'more than 65536 events'),
    Sub('dummy', strategy, run_dummy, 400, 8000,
        'histories with registered events')]
