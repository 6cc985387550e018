"""Event type collections"""
TECHNIQUE = 'stateful property-based testing against a dictionary model'
NOTE = (
    'After every add/remove all collection implementations (list, tree,'
    ' default) are compared with the model on every event type of a '
    'finite universe.')

import random

from hypothesis import strategies as st

from vlib import gen, model
from vlib.core import Sub, check

from hat.event import common
from hat.event.common.collection.pylist import PyListEventTypeCollection
from hat.event.common.collection.pytree import PyTreeEventTypeCollection

MAX_LEN = 3

_query_type = st.builds(
    lambda head, tail: [*head, *tail],
    st.lists(st.sampled_from(['a', 'b', '?']), max_size=MAX_LEN),
    st.sampled_from([[], [], ['*']]))

_universe = [*model.universe(['a', 'b', 'ab'], MAX_LEN + 1)]


def strategy():
    query_types = st.lists(_query_type, max_size=4)
    value = st.integers(0, 3)
    return st.fixed_dictionaries({
        'items': st.lists(st.tuples(query_types, value), max_size=3),
        'ops': st.lists(
            gen.one_of(st.tuples(st.just('add'), query_types, value),
                      st.tuples(st.just('add'), query_types, value),
                      st.tuples(st.just('remove'), value)),
            max_size=8)})


def _verify(collections, expected, log):
    for t in _universe:
        values = sorted(value for value, query_types in expected.items()
                        if model.any_matches(t, query_types))
        for name, collection in collections.items():
            result = [*collection.get(t)]
            check(sorted(result) == values,
                  '%s: get(%r) is %r, expected %r after %r',
                  name, t, result, values, log)


def run(case, ctx):
    def create_items():
        for query_types, value in case['items']:
            yield (common.create_subscription(tuple(i) for i in query_types),
                   value)

    collections = {
        'default': common.create_event_type_collection(create_items()),
        'list': PyListEventTypeCollection(create_items()),
        'tree': PyTreeEventTypeCollection(create_items())}
    log = [['init', case['items']]]
    expected = {}
    for query_types, value in case['items']:
        expected.setdefault(value, []).extend(query_types)

    readded = False
    for op in case['ops']:
        log.append(op)
        if op[0] == 'add':
            _, query_types, value = op
            readded = readded or bool(expected.get(value) and query_types)
            expected.setdefault(value, []).extend(query_types)
            for i in collections.values():
                i.add(common.create_subscription(
                    tuple(i) for i in query_types), value)
        else:
            _, value = op
            if expected.pop(value, None):
                ctx.label('removed existing')
            for i in collections.values():
                i.remove(value)
        if len(case['ops']) < 4:
            _verify(collections, expected, log)

    _verify(collections, expected, log)
    if readded:
        ctx.label('value added repeatedly')
    ctx.nontrivial = sum(1 for i in expected.values() if i) > 1


def great_strategy():
    return st.fixed_dictionaries({
        'seed': st.integers(0, 10**6),
        'values': st.sampled_from([1, 10, 300, 700, 3000]),
        'query_types': st.sampled_from([1, 3, 20]),
        'segments': st.sampled_from([2, 40, 2000]),
        'depth': st.sampled_from([1, 2, 3, 40]),
        'wild': st.sampled_from([0, 0.1, 0.5]),
        'remove': st.sampled_from([0, 0.1, 0.9]),
        'common': st.booleans()})


def great_run(case, ctx):
    """Many values, many segments, long types"""
    r = random.Random(case['seed'])
    collections = {
        'default': common.create_event_type_collection(),
        'list': PyListEventTypeCollection(),
        'tree': PyTreeEventTypeCollection()}
    expected = {}
    used = []
    for value in range(case['values']):
        query_types = [('all', '*'), ('all',)] if case['common'] else []
        for _ in range(case['query_types']):
            q = ['?' if r.random() < case['wild'] else
                 f's{r.randrange(case["segments"])}'
                 for _ in range(r.randint(1, case['depth']))]
            if r.random() < 0.1:
                q.append('*')
            query_types.append(tuple(q))
        expected[value] = query_types
        used.extend(query_types[-2:])
        for i in collections.values():
            i.add(common.create_subscription(query_types), value)
    for value in [*expected]:
        if r.random() < case['remove']:
            del expected[value]
            for i in collections.values():
                i.remove(value)
    types = [('all',), ('all', 'x')]
    for q in r.sample(used, min(len(used), 8)):
        t = [f's{r.randrange(50)}' if i in '?*' else i for i in q]
        types.append(tuple(t))
        types.append((*t, 's1'))
    for t in types:
        values = {value for value, query_types in expected.items()
                  if model.any_matches(t, query_types)}
        for name, collection in collections.items():
            result = [*collection.get(t)]
            check(len(result) == len(values) and set(result) == values,
                  '%s: get(%r) returned %s values, expected %s', name, t,
                  len(result), len(values))
        ctx.label('found', len(values))
    ctx.nontrivial = len(expected) > 100 or case['depth'] > 10


SUBS = [
    Sub('history', strategy, run, 4000, 100000,
        'add/remove histories over 4 values with wildcard subscriptions; all '
        'types of length <= 4 looked up in default, list and tree collection; '
        'non-trivial: at least two values with query types at the end'),
    Sub('great', great_strategy, great_run, 120, 2000,
        'more than 100 values or types of more than 10 segments')]
