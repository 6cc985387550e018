"""LMDB server queries"""
TECHNIQUE = ('stateful model-based property testing of the real LMDB backend '
             'with generated executor interleavings')
NOTE = ('Histories include supersession, reopen with changed configuration, '
        'retention and any limit and last event id. Events already superseded '
        'in cache but still on disk may or may not be returned by queries '
        'which are not restricted to persisted events.')

import asyncio

from hypothesis import strategies as st

from vlib import gen, lmdbm, sim
from vlib.core import Sub, check

from hat.event import common

_spec = lmdbm.event_spec(id_step=lmdbm.good_id_step,
                         t_step=lmdbm.good_t_step, types=lmdbm.few_types)


async def _battery(d):
    for server in lmdbm.SERVERS:
        for persisted in (True, False):
            await d.check_server(server, persisted, None, None)


def strategy():
    return lmdbm.history(
        gen.one_of(lmdbm.reg_op(_spec), lmdbm.reg_op(_spec), lmdbm.reg_op(),
                  lmdbm.flush_op, lmdbm.flush_op, lmdbm.reopen_op,
                  lmdbm.server_op, lmdbm.server_op),
        max_ops=14, max_confs=3, conditions=lmdbm.simple_conditions)


def run(case, ctx):
    async def after(d, op):
        if op[0] != 'server':
            await _battery(d)

    d = lmdbm.run_history(case, ctx, after, _battery)
    ctx.nontrivial = (len(d.model.disk.all_ids()) > 1 and
                      len(d.model.disk.all_ids()) < len(d.events))


def overlap_strategy():
    @st.composite
    def s(draw):
        pool, confs = draw(lmdbm.pool_and_confs())
        if not pool:
            confs[0]['latest'] = [['*']]
        op = gen.one_of(
            st.tuples(st.just('reg'), st.lists(_spec, min_size=1,
                                               max_size=3)),
            lmdbm.server_op, lmdbm.server_op, lmdbm.flush_op)
        return {'pool': pool, 'confs': confs,
                'sim': {**draw(lmdbm.sim_conf),
                        'preempt': draw(st.lists(st.integers(1, 6),
                                                 min_size=1, max_size=4))},
                'before': draw(st.lists(_spec, max_size=5)),
                'during': [*draw(st.sampled_from([[], [[0, ['flush']]]])),
                           *draw(st.lists(st.tuples(st.integers(0, 3), op),
                                          min_size=1, max_size=8))]}
    return s()


def run_overlap(case, ctx):
    """Queries while flush is running see each event exactly once"""

    async def query(d, op):
        server = [*lmdbm.SERVERS, 99][op[1]]
        first = d.floor
        result, more = await d.query(
            common.QueryServerParams(server_id=server, persisted=op[2]),
            'server query')
        if op[2]:
            states = [{*i.stored(server)} for i in d.states[first:]]
            ids = {i.id for i in result}
            check(ids in states,
                  'persisted events %r match no state of the disk %r',
                  sorted(ids), states)
            allowed = {k: v for i in d.states for k, v in
                       i.stored(server).items()}
            required = {}
        else:
            # events superseded by cached ones may disappear with flush
            required = d.model.mem.stored(server)
            allowed = {**required}
            for i in d.states[first:]:
                allowed.update(i.stored(server))
        lmdbm.check_server(result, more, dict(required), dict(allowed), None,
                           4096, f'server query {op}')

    async def main(loop):
        async with lmdbm.driver(case['pool'], case['confs'],
                                ctx.tmp / 'db') as d:
            await d.open(0)
            # possible states of the disk, those before floor are obsolete
            d.states = [d.model.mem.copy()]
            d.floor = 0

            async def register(specs):
                await d.register(specs)
                d.states.append(d.model.mem.copy())

            async def flush():
                n = len(d.states) - 1
                await d.backend.flush()
                d.floor = max(d.floor, n)

            if case['before']:
                await register(case['before'])
            flushes = []
            queries = []
            overlap = 0
            for delay, op in case['during']:
                await asyncio.sleep(delay * 0.002)
                if op[0] == 'flush':
                    flushes.append(asyncio.ensure_future(flush()))
                elif op[0] == 'reg':
                    for i in queries:
                        await sim.within(1000, i, 'query')
                    queries = []
                    await register(op[1])
                else:
                    queries.append(asyncio.ensure_future(query(d, op)))
                    overlap += any(not i.done() for i in flushes)
            for i in [*queries, *flushes]:
                await sim.within(1000, i, 'query or flush')
            await d.flush()
            await _battery(d)
            ctx.nontrivial = bool(overlap)
            ctx.label('queries during flush', overlap)

    sim.run(main, case['sim'])


def run_great(case, ctx):
    async def verify(d):
        for server in {*d.servers[:3], d.servers[len(d.servers) // 2],
                       d.servers[-1]}:
            for persisted in (True, False):
                await d.check_server(server, persisted, None, None)
                result, _ = await d.check_server(server, persisted, 100, None)
                if result:
                    await d.check_server(server, persisted, None,
                                         result[-1].id)

    lmdbm.run_great(case, ctx, verify)


SUBS = [
    Sub('great', lmdbm.great, run_great, 48, 1600, lmdbm.GREAT_RULE),
    Sub('history', strategy, run, 2000, 60000,
        'histories with at least two stored events and some event that is '
        'not stored any more (superseded, rejected or not covered)'),
    Sub('overlap', overlap_strategy, run_overlap, 1600, 40000,
        'cases with queries issued while a flush is in progress')]
