"""LMDB time series queries"""
TECHNIQUE = ('stateful model-based property testing of the real LMDB backend '
             'with generated executor interleavings')
NOTE = ('Random histories of registrations, flushes and queries (all '
        'parameter combinations, boundary timestamps) are compared with a '
        'model; in a second generator queries run while a flush is preempted '
        'between database operations. Relative order of events of different '
        'servers with equal timestamps is left open.')

import asyncio

from hypothesis import strategies as st

from vlib import gen, lmdbm, sim
from vlib.core import Sub

_spec = lmdbm.event_spec(t_step=lmdbm.t_step)


def strategy():
    return lmdbm.history(
        gen.one_of(lmdbm.reg_op(_spec), lmdbm.reg_op(_spec), lmdbm.flush_op,
                  lmdbm.reopen_op, lmdbm.ts_op, lmdbm.ts_op, lmdbm.ts_op),
        max_ops=14, max_confs=3)


async def _battery(d):
    for by_source in (False, True):
        for desc in (False, True):
            await d.check_timeseries({**lmdbm.full_query, 'desc': desc,
                                      'by_source': by_source})
    for i, _ in d.model.conf['parts']:
        part = d.pool[i]
        await d.check_timeseries({**lmdbm.full_query,
                                  'by_source': part['by_source'],
                                  'types': part['subscriptions']})


def run(case, ctx):
    async def after(d, op):
        if op[0] != 'ts':
            await _battery(d)

    d = lmdbm.run_history(case, ctx, after, None,
                          timeseries_max_results=case['max'])
    stored = sum(len(i) for i in d.model.mem.parts.values())
    ctx.nontrivial = (stored > 1 and
                      any(i[0] == 'flush' for i in case['ops']))


def history_strategy():
    return st.builds(lambda c, n: {**c, 'max': n}, strategy(),
                     st.sampled_from([4096, 4096, 4096, 3, 1]))


def overlap_strategy():
    @st.composite
    def s(draw):
        pool, confs = draw(lmdbm.pool_and_confs())
        if not pool:
            pool = [{'by_source': False, 'subscriptions': [['*']]}]
            confs[0]['parts'] = [[0, None]]
        op = gen.one_of(
            st.tuples(st.just('reg'), st.lists(lmdbm.event_spec(),
                                               min_size=1, max_size=3)),
            lmdbm.ts_op, lmdbm.ts_op, lmdbm.flush_op)
        return {'pool': pool, 'confs': confs,
                'sim': {**draw(lmdbm.sim_conf),
                        'preempt': draw(st.lists(st.integers(1, 6),
                                                 min_size=1, max_size=4))},
                'before': draw(st.lists(lmdbm.event_spec(), max_size=5)),
                'during': [*draw(st.sampled_from([[], [[0, ['flush']]]])),
                           *draw(st.lists(st.tuples(st.integers(0, 3), op),
                                          min_size=1, max_size=8))]}
    return s()


def run_overlap(case, ctx):
    """Queries started at any moment of flush answer as if it was atomic"""

    async def main(loop):
        async with lmdbm.driver(case['pool'], case['confs'],
                                ctx.tmp / 'db') as d:
            await d.open(0)
            if case['before']:
                await d.register(case['before'])
            flushes = []
            queries = []
            overlap = 0
            for delay, op in case['during']:
                await asyncio.sleep(delay * 0.002)
                if op[0] == 'flush':
                    flushes.append(asyncio.ensure_future(d.backend.flush()))
                elif op[0] == 'reg':
                    # answer of a query running at this time is not
                    # determined
                    for i in queries:
                        await sim.within(1000, i, 'query')
                    queries = []
                    await d.register(op[1])
                else:
                    queries.append(asyncio.ensure_future(
                        d.check_timeseries(op[1])))
                    overlap += any(not i.done() for i in flushes)
            for i in [*queries, *flushes]:
                await sim.within(1000, i, 'query or flush')
            await _battery(d)
            ctx.nontrivial = bool(overlap)
            ctx.label('queries during flush', overlap)

    sim.run(main, case['sim'])


def run_great(case, ctx):
    async def verify(d):
        for by_source in (False, True) if d.final else ():
            await d.check_timeseries({**lmdbm.full_query,
                                      'by_source': by_source})
        for q in case['queries'][:None if d.final else 1]:
            if q['types'] is not None:
                q = {**q, 'types': [d.types[i % len(d.types)]
                                    for i in q['types']]}
            await d.check_timeseries(q)
        for i in (0, 9, 10, 150, -1):
            i, _ = d.model.conf['parts'][i % len(d.model.conf['parts'])]
            part = d.pool[i]
            if ['*'] in part['subscriptions']:
                continue
            await d.check_timeseries({**lmdbm.full_query,
                                      'by_source': part['by_source'],
                                      'types': part['subscriptions']})

    lmdbm.run_great(case, ctx, verify)


SUBS = [
    Sub('great', lmdbm.great, run_great, 40, 1600, lmdbm.GREAT_RULE),
    Sub('history', history_strategy, run, 2400, 60000,
        'histories with a flush and at least two stored time series '
        'entries'),
    Sub('overlap', overlap_strategy, run_overlap, 2400, 40000,
        'cases with queries issued while a flush is in progress')]
