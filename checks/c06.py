"""LMDB latest queries"""
TECHNIQUE = 'stateful model-based property testing of the real LMDB backend'
NOTE = ('Random histories of registrations, flushes, reopens and latest '
        'queries are compared with a dictionary model after every step; '
        'executor timing is simulated.')

from hypothesis import strategies as st

from vlib import gen, lmdbm, sim
from vlib.core import Sub


def strategy():
    return lmdbm.history(
        gen.one_of(lmdbm.reg_op(), lmdbm.reg_op(), lmdbm.flush_op,
                  lmdbm.reopen_op, lmdbm.latest_op, lmdbm.latest_op),
        max_ops=14)


def run(case, ctx):
    async def after(d, op):
        if op[0] not in ('latest',):
            await d.check_latest(None)

    async def final(d):
        types = [list(t) for t in d.model.mem.latest]
        await d.check_latest(types)
        await d.check_latest([*types, ['zz']])
        for t in types:
            await d.check_latest([t])
        await d.close()
        await d.open(0)
        await d.check_latest(None)
        await d.check_latest(types[:1])

    d = lmdbm.run_history(case, ctx, after, final)
    servers = {i.id.server for i in d.events}
    ctx.nontrivial = bool(d.model.mem.latest) and len(servers) > 1


def overlap_strategy():
    @st.composite
    def s(draw):
        pool, confs = draw(lmdbm.pool_and_confs())
        confs[0]['latest'] = draw(st.sampled_from([[['*']], [['a', '*']]]))
        preempt = draw(st.lists(st.integers(1, 6), min_size=1, max_size=4))
        return {'pool': pool, 'confs': confs,
                'sim': {**draw(lmdbm.sim_conf), 'preempt': preempt},
                'before': draw(st.lists(lmdbm.event_spec(), max_size=4)),
                'during': draw(st.lists(st.tuples(
                    st.integers(0, 3),
                    st.lists(lmdbm.event_spec(), min_size=1, max_size=3)),
                    min_size=1, max_size=4))}
    return s()


def run_overlap(case, ctx):
    """Registrations and queries while flush is writing"""
    import asyncio

    async def main(loop):
        async with lmdbm.driver(case['pool'], case['confs'],
                                ctx.tmp / 'db') as d:
            await d.open(0)
            if case['before']:
                await d.register(case['before'])
            flush = asyncio.ensure_future(d.backend.flush())
            overlap = 0
            for delay, specs in case['during']:
                if delay:
                    await asyncio.sleep(delay * 0.002)
                else:
                    await asyncio.sleep(0)
                overlap += not flush.done()
                await d.register(specs)
                await d.check_latest(None)
            await sim.within(1000, flush, 'flush')
            await d.check_latest(None)
            await d.close()
            await d.open(0)
            await d.check_latest(None)
            ctx.nontrivial = bool(overlap and d.model.mem.latest)
            ctx.label('registrations during flush', overlap)

    sim.run(main, case['sim'])


def run_great(case, ctx):
    async def verify(d):
        await d.check_latest(None)
        await d.check_latest(d.types[::7])
        await d.check_latest([d.types[-1]])

    lmdbm.run_great(case, ctx, verify)


SUBS = [
    Sub('great', lmdbm.great, run_great, 48, 1600, lmdbm.GREAT_RULE),
    Sub('history', strategy, run, 2400, 60000,
        'histories in which events of at least two servers are registered '
        'and some latest event is stored'),
    Sub('overlap', overlap_strategy, run_overlap, 800, 16000,
        'cases in which events are registered while a flush is being '
        'written and some latest event is stored')]
