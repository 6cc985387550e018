"""LMDB conditions"""
TECHNIQUE = ('property testing against an independent evaluator of '
             'conditions, through registration and queries')
NOTE = ('Arbitrarily nested conditions with paths, types and values over all '
        'kinds of payloads; reopening with other conditions. Server queries '
        'are not restricted by conditions and not part of the property.')

from hypothesis import strategies as st

from vlib import gen, lmdbm, sim
from vlib.core import Sub

_json = st.recursive(
    lmdbm.json_value,
    lambda c: gen.one_of(st.lists(c, max_size=3),
                        st.dictionaries(st.sampled_from(['p', 'q']), c,
                                        max_size=2)), max_leaves=4)

_path = gen.one_of(st.just([]), st.sampled_from(['p', 'q', 0, 1, -1, 'zz']),
                  st.lists(st.sampled_from(['p', 'q', 0, 1, ['p'], [], [0, 'q'],
                                            -1]), max_size=3))


@st.composite
def _leaf(draw):
    cond = {'type': 'json'}
    if draw(st.booleans()):
        cond['data_path'] = draw(_path)
    if draw(st.booleans()):
        cond['data_type'] = draw(st.sampled_from(
            ['null', 'boolean', 'string', 'number', 'array', 'object']))
    if draw(st.booleans()):
        cond['data_value'] = draw(_json)
    return cond


_condition = st.recursive(
    _leaf(), lambda c: st.builds(lambda t, i: {'type': t, 'conditions': i},
                                 st.sampled_from(['all', 'any']),
                                 st.lists(c, max_size=3)), max_leaves=5)

_conditions = st.lists(
    st.fixed_dictionaries({'subscriptions': lmdbm.query_types,
                           'condition': _condition}), max_size=3)

_payload = gen.one_of(st.just(None),
                     st.just({'bin': ['t', '00']}),
                     *([_json.map(lambda i: {'json': i})] * 6))


_small_leaf = gen.one_of(
    st.builds(lambda t: {'type': 'json', 'data_type': t}, st.sampled_from(
        ['null', 'boolean', 'string', 'number', 'array', 'object'])),
    st.builds(lambda p, t: {'type': 'json', 'data_path': p, 'data_type': t},
              st.sampled_from(['p', ['p'], ['p', 0], 0]), st.sampled_from(
        ['null', 'boolean', 'string', 'number', 'array', 'object'])),
    st.builds(lambda v: {'type': 'json', 'data_value': v}, lmdbm.json_value),
    st.builds(lambda v: {'type': 'json', 'data_value': v, 'data_path': 'p'},
              lmdbm.json_value))

_small = st.recursive(
    _small_leaf, lambda c: st.builds(
        lambda t, i: {'type': t, 'conditions': i},
        st.sampled_from(['all', 'any', 'any']),
        st.lists(c, min_size=1, max_size=4)), max_leaves=4)

_small_conditions = st.lists(
    st.fixed_dictionaries({'subscriptions': st.sampled_from(
        [[['*']], [['a', '*']], [['b'], ['a']], [['?']]]),
        'condition': _small}), min_size=1, max_size=2)


def strategy():
    def case(conditions, payload):
        return st.fixed_dictionaries({
            'confs': st.lists(conditions, min_size=1, max_size=3),
            'events': st.lists(st.tuples(lmdbm.types, payload,
                                         lmdbm.source_ts),
                               min_size=1, max_size=10),
            'splits': st.lists(st.integers(0, 4), max_size=3)})

    return gen.one_of(
        case(_conditions, _payload),
        case(_small_conditions, lmdbm.payload),
        case(_small_conditions, lmdbm.json_value.map(lambda i: {'json': i})))


def run(case, ctx):
    pool = [{'by_source': False, 'subscriptions': [['*']]},
            {'by_source': True, 'subscriptions': [['*']]}]
    confs = [{'latest': [['*']], 'parts': [[0, None], [1, None]],
              'conditions': i} for i in case['confs']]

    async def main(loop):
        async with lmdbm.driver(pool, confs, ctx.tmp / 'db') as d:
            events = [{'srv': 0, 'id': 'next', 't': 'us', 'type': t,
                       'st': s, 'payload': p}
                      for t, p, s in case['events']]
            reasons = []
            splits = iter(case['splits'])
            for i in range(len(confs)):
                await d.open(i)
                n = (next(splits, len(events)) if i < len(confs) - 1
                     else len(events))
                await _check(d)
                part, events = events[:n], events[n:]
                if part:
                    reasons.extend(await d.register(part))
                await _check(d)
                await d.flush()
                await _check(d)
                await d.close()
            for i in range(len(confs)):
                await d.open(i)
                await _check(d)
                hidden = (len(d.model.mem.parts.get(0, {})) -
                          sum(map(len, d.model.timeseries({
                              **lmdbm.full_query}))))
                ctx.label('events hidden after reopen', hidden)
                await d.close()
            ctx.label('events rejected', reasons.count('conditions'))
            ctx.label('events stored', reasons.count(None))
            ctx.nontrivial = (any(i['condition'] for c in case['confs']
                                  for i in c) and 'conditions' in reasons and
                              None in reasons)

    sim.run(main)


async def _check(d):
    await d.check_latest(None)
    for by_source in (False, True):
        await d.check_timeseries({**lmdbm.full_query,
                                  'by_source': by_source})
    await d.check_last_ids()


SUBS = [
    Sub('conditions', strategy, run, 3000, 80000,
        'cases with conditions in which some events are accepted and some '
        'rejected because of them')]
