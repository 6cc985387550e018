"""Paging"""
TECHNIQUE = ('metamorphic property testing: pages against the unlimited '
             'query, directly and over simulated network')
NOTE = ('Page sizes are at least one. When new events are registered between '
        'pages, only events stored all the time are required, in order.')

from hypothesis import strategies as st

from vlib import gen, lmdbm, sim
from vlib.core import Sub, check

from hat.drivers import tcp
from hat.event import common, eventer

_spec = lmdbm.event_spec(id_step=lmdbm.good_id_step,
                         t_step=lmdbm.good_t_step)


def strategy():
    @st.composite
    def s(draw):
        pool, confs = draw(lmdbm.pool_and_confs())
        ops = gen.one_of(lmdbm.reg_op(_spec, 8), lmdbm.reg_op(_spec, 8),
                        lmdbm.flush_op)
        return {
            'pool': pool, 'confs': confs, 'sim': draw(lmdbm.sim_conf),
            'ops': draw(st.lists(ops, min_size=2, max_size=8)),
            'max': draw(st.sampled_from([4096, 4096, 4096, 2, 5])),
            'via': draw(st.sampled_from(['direct', 'direct', 'network'])),
            'queries': draw(st.lists(st.fixed_dictionaries({
                'q': gen.one_of(
                    st.builds(lambda d, s: {**lmdbm.full_query, 'desc': d,
                                            'by_source': s, 'kind': 'ts'},
                              st.booleans(), st.booleans()),
                    lmdbm.ts_query.map(lambda q: {**q, 'kind': 'ts'}),
                    st.fixed_dictionaries({
                        'kind': st.just('server'),
                        'server': st.sampled_from(lmdbm.SERVERS),
                        'persisted': st.booleans()})),
                'pages': st.lists(gen.one_of(st.integers(1, 3), st.integers(
                    1, 3), st.integers(1, 8), st.none()), min_size=1,
                    max_size=4),
                'between': st.lists(
                    gen.one_of(st.just(None), st.just(None), lmdbm.flush_op,
                              lmdbm.reg_op(_spec, 2)), max_size=4)}),
                min_size=1, max_size=4))}
    return s()


def run(case, ctx):
    async def main(loop):
        async with lmdbm.driver(case['pool'], case['confs'], ctx.tmp / 'db',
                                timeseries_max_results=case['max']) as d:
            await d.open(0)
            await lmdbm.play(d, case['ops'], ctx)
            if case['via'] == 'direct':
                await _queries(d, d.backend.query, case, ctx)
                return
            addr = tcp.Address('127.0.0.1', 1234)
            server = await eventer.listen(
                addr, status=common.Status.OPERATIONAL,
                query_cb=lambda info, params: d.backend.query(params))
            try:
                client = await eventer.connect(addr, 'client')
                await _queries(d, client.query, case, ctx)
                await client.async_close()
            finally:
                server.close()
            await sim.within(100, server.async_close(), 'server close')

    sim.run(main, case['sim'])


async def _all(fn, params, what):
    """Unlimited result, for server side limit of any size"""
    result = await sim.within(1000, fn(params), what)
    return gen.result_of(result, what)


async def _queries(d, fn, case, ctx):
    for query in case['queries']:
        q = query['q']
        if q['kind'] == 'ts':
            resolved = d.resolve(q)
            params = d.params({**resolved, 'max': None})
            expected = [j for i in d.model.timeseries(resolved) for j in i]
        else:
            params = common.QueryServerParams(server_id=q['server'],
                                              persisted=q['persisted'])
            expected = [*d.model.mem.stored(q['server']).values()]
        whole, more = await _all(fn, params, 'unlimited query')
        writes = any(i and i[0] == 'reg' for i in query['between'])
        known = {i.id for i in d.events}
        if not more:
            first = whole
        else:
            first = None

        pages = sim.Cyc(query['pages'])
        between = iter(query['between'])
        visited = []
        last = None
        count = 0
        multi = False
        while True:
            size = pages.next()
            result, more = await _all(
                fn, params._replace(max_results=size, last_event_id=last),
                'page')
            if size is not None:
                check(len(result) <= size, 'page of %s events, limit %s',
                      len(result), size)
            check(not more or result,
                  'empty page but more_follows is set, after %r', last)
            visited.extend(result)
            count += 1
            check(count <= len(d.events) + 5, 'paging does not end: %r',
                  [i.id for i in visited])
            if not more:
                break
            multi = True
            last = result[-1].id
            op = next(between, None)
            if op:
                await lmdbm.play(d, [op], ctx)

        ids = [i.id for i in visited]
        check(len(set(ids)) == len(ids), 'event visited twice: %r', ids)
        old = [i for i in visited if i.id in known]
        if q['kind'] == 'server':
            check(ids == sorted(ids), 'not in order: %r', ids)
        if not writes:
            old_ids = [i.id for i in old]
            # flush between pages makes more events persisted
            if q['kind'] == 'ts' or not q['persisted']:
                after = {i.id for i in expected}
                if q['kind'] == 'ts':
                    check(set(old_ids) == after,
                          'pages %r contain %r, expected %r',
                          query['pages'], old_ids, sorted(after))
                else:
                    check(set(old_ids) >= after,
                          'pages %r contain %r, expected %r',
                          query['pages'], old_ids, sorted(after))
            final, more = await _all(fn, params, 'unlimited query')
            if not more and (q['kind'] == 'ts' or
                             'flush' not in str(query['between'])):
                check(gen.same(visited, final),
                      'pages %r are %r, unlimited query %r', query['pages'],
                      old_ids, [i.id for i in final])
        if first is not None and q['kind'] == 'ts':
            pos = [ids.index(i.id) if i.id in ids else -1 for i in first]
            check(-1 not in pos and pos == sorted(pos),
                  'pages %r are %r, before paging %r', query['pages'], ids,
                  [i.id for i in first])
        ctx.label(f"{q['kind']} {case['via']}")
        if multi:
            ctx.label('several pages')
            ctx.nontrivial = True


_count = st.sampled_from([700, 1023, 1024, 1025, 2048, 2049, 4095, 4096, 4096,
                          4097, 4097, 5000, 8191, 8192, 8193, 9000])


def many_strategy():
    return st.fixed_dictionaries({
        'count': _count,
        'batch': st.sampled_from([1000, 1024, 4096, 10_000]),
        'flushed': st.sampled_from([0, 1, 50, 99, 100]),
        'via': st.sampled_from(['direct', 'direct', 'network']),
        'queries': st.lists(st.fixed_dictionaries({
            'kind': st.sampled_from(['server', 'server', 'ts', 'ts']),
            'persisted': st.booleans(), 'desc': st.booleans(),
            'by_source': st.booleans(),
            'types': st.sampled_from([None, None, [['a']], [['*']],
                                      [['b'], ['a']]]),
            'pages': st.lists(st.sampled_from(
                [None, None, 4096, 4095, 4097, 1000, 1023, 1024, 1025, 2047,
                 10_000]), min_size=1, max_size=4)}),
            min_size=1, max_size=3)})


def run_many(case, ctx):
    """Numbers of events about limits of single result"""
    pool = [{'by_source': False, 'subscriptions': [['*']]},
            {'by_source': True, 'subscriptions': [['*']]}]
    conf = {'latest': [], 'parts': [[0, None], [1, None]], 'conditions': [],
            'identifier': None}
    events = [
        common.Event(id=common.EventId(1, i // 7 + 1, i % 7 + 1),
                     type=('aab'[i % 3], ),
                     timestamp=common.Timestamp(lmdbm.BASE_S + i // 3, 0),
                     source_timestamp=common.Timestamp(i * 7919 % 10_007, 0),
                     payload=None)
        for i in range(case['count'])]

    async def main(loop):
        backend = await lmdbm.lmdb_info.create(
            lmdbm.backend_conf(pool, conf, ctx.tmp / 'db'), None, None)
        flushed = len(events) * case['flushed'] // 100
        for part in (events[:flushed], events[flushed:]):
            while part:
                await backend.register(part[:case['batch']])
                part = part[case['batch']:]
            if flushed:
                await sim.within(1000, backend.flush(), 'flush')
                flushed = 0

        if case['via'] == 'direct':
            await queries(backend.query)
        else:
            addr = tcp.Address('127.0.0.1', 1234)
            server = await eventer.listen(
                addr, status=common.Status.OPERATIONAL,
                query_cb=lambda info, params: backend.query(params))
            client = await eventer.connect(addr, 'client')
            await queries(client.query)
            await client.async_close()
            await sim.within(100, server.async_close(), 'server close')
        await sim.within(1000, backend.async_close(), 'close')

    async def queries(fn):
        flushed = len(events) * case['flushed'] // 100
        for q in case['queries']:
            if q['kind'] == 'ts':
                types = None if q['types'] is None else [
                    tuple(i) for i in q['types']]
                expected = [i for i in events if types is None or
                            i.type in types or ('*', ) in types]
                expected.sort(key=lambda i: (
                    i.source_timestamp if q['by_source'] else i.timestamp,
                    i.id), reverse=q['desc'])
                params = common.QueryTimeseriesParams(
                    event_types=types,
                    order=(common.Order.DESCENDING if q['desc'] else
                           common.Order.ASCENDING),
                    order_by=(common.OrderBy.SOURCE_TIMESTAMP
                              if q['by_source'] else
                              common.OrderBy.TIMESTAMP))
            else:
                expected = events[:flushed] if q['persisted'] else events
                params = common.QueryServerParams(server_id=1,
                                                  persisted=q['persisted'])
            sizes = sim.Cyc(q['pages'])
            visited = 0
            last = None
            pages = 0
            while True:
                size = sizes.next()
                result, more = await _all(
                    fn, params._replace(max_results=size,
                                        last_event_id=last), 'page')
                check(size is None or len(result) <= size,
                      'page of %s events, limit %s', len(result), size)
                check(gen.same(list(result),
                               expected[visited:visited + len(result)]),
                      'page after %s of %s events is not continued in order',
                      visited, len(expected))
                visited += len(result)
                check(more == (visited < len(expected)),
                      'more_follows is %s after %s of %s events', more,
                      visited, len(expected))
                pages += 1
                if not more:
                    break
                check(result, 'empty page but more_follows is set')
                last = result[-1].id
            ctx.label(f"{q['kind']} {case['via']}")
            if pages > 1:
                ctx.label('several pages')
                ctx.nontrivial = True

    sim.run(main, {})


SUBS = [
    Sub('pages', strategy, run, 2400, 60000,
        'cases in which some query takes at least two pages'),
    Sub('many', many_strategy, run_many, 80, 1600,
        'cases in which some query takes at least two pages')]
