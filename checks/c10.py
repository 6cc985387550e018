"""LMDB registration"""
TECHNIQUE = 'stateful model-based property testing of the real LMDB backend'
NOTE = ('Sequences of valid, repeated, backward, too old, condition violating '
        'and uncovered events with flush, reopen and re-registration; all '
        'queries and last event ids are compared with the acceptance model '
        'after each step.')

from hypothesis import strategies as st

from vlib import gen, lmdbm
from vlib.core import Sub


def strategy():
    reg = lmdbm.reg_op()
    return lmdbm.history(
        gen.one_of(reg, reg, reg, lmdbm.again_op, lmdbm.flush_op,
                  lmdbm.reopen_op),
        max_ops=10, max_confs=2, conditions=lmdbm.simple_conditions)


def run(case, ctx):
    async def after(d, op):
        await d.check_last_ids()
        if op[0] in ('reg', 'again'):
            await lmdbm.check_everything(d)

    d = lmdbm.run_history(case, ctx, after)
    reasons = {k for k in ctx.labels if k.startswith('event ')}
    ctx.nontrivial = 'event stored' in reasons and len(reasons) > 2


def run_great(case, ctx):
    async def verify(d):
        await d.check_last_ids()
        await d.check_latest(None)

    lmdbm.run_great(case, ctx, verify)


SUBS = [
    Sub('great', lmdbm.great, run_great, 32, 1600, lmdbm.GREAT_RULE),
    Sub('history', strategy, run, 2400, 60000,
        'histories with stored events and at least two different reasons '
        'of rejection')]
