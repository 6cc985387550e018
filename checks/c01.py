"""Event type matching and subscription algebra"""
TECHNIQUE = (
    'property-based testing: model-based oracle over exhaustive finite '
    'universe of event types')
NOTE = (
    'Every generated subscription is compared with the documented '
    'matching rule on all event types of a finite alphabet; both the '
    'default and each alternative implementation available without a C '
    'compiler are checked (CSubscription is not built here).')

import random

from hypothesis import strategies as st

from vlib import gen, model
from vlib.core import Sub, check

from hat.event import common

ALPHABET = ['a', 'b']
FRESH = 'ab'
MAX_LEN = 3

_segment = st.sampled_from(['a', 'b', '?'])
_query_type = st.builds(
    lambda head, tail: [*head, *tail],
    st.lists(_segment, max_size=MAX_LEN),
    st.sampled_from([[], [], ['*']]))
_leaf = st.builds(lambda i: ['leaf', i], st.lists(_query_type, max_size=4))


def expr_strategy():
    return st.recursive(
        _leaf,
        lambda c: st.builds(
            lambda op, args: [op, *args],
            st.sampled_from(['union', 'intersection', 'intersection']),
            st.lists(c, min_size=1, max_size=3)),
        max_leaves=4)


_universe = [*model.universe([*ALPHABET, FRESH], MAX_LEN + 1)]


def _evaluate(expr, nodes):
    """Returns subscription and set of matched types"""
    if expr[0] == 'leaf':
        query_types = [tuple(i) for i in expr[1]]
        sub = common.create_subscription(i for i in query_types)
        expected = {t for t in _universe if model.any_matches(t, query_types)}

    else:
        args = [_evaluate(i, nodes) for i in expr[1:]]
        first, rest = args[0], args[1:]
        if expr[0] == 'union':
            sub = first[0].union(*(i[0] for i in rest))
            expected = set.union(*(i[1] for i in args))
        else:
            sub = first[0].intersection(*(i[0] for i in rest))
            expected = set.intersection(*(i[1] for i in args))

    nodes.append((expr, sub, expected))
    return sub, expected


def run_algebra(case, ctx):
    nodes = []
    for expr in case:
        _evaluate(expr, nodes)

    ctx.nontrivial = any(0 < len(i[2]) < len(_universe) for i in nodes)
    if any(i[0][0] == 'intersection' and i[2] for i in nodes):
        ctx.label('non-empty intersection')

    for expr, sub, expected in nodes:
        for t in _universe:
            check(bool(sub.matches(t)) == (t in expected),
                  'matches(%r) is %r for %r', t, sub.matches(t), expr)

        query_types = [tuple(i) for i in sub.get_query_types()]
        for t in _universe:
            check(model.any_matches(t, query_types) == (t in expected),
                  'query types %r of %r wrong for %r', query_types, expr, t)

    for expr1, sub1, expected1 in nodes:
        for expr2, sub2, expected2 in nodes:
            result = sub1.isdisjoint(sub2)
            ctx.label('disjoint' if not (expected1 & expected2)
                      else 'overlapping')
            check(bool(result) == (not (expected1 & expected2)),
                  'isdisjoint is %r for %r and %r', result, expr1, expr2)


def run_matches(case, ctx):
    event_type, query_type = (tuple(i) for i in case)
    expected = model.type_matches(event_type, query_type)
    ctx.nontrivial = bool(query_type)
    ctx.label('match' if expected else 'no match')
    result = common.matches_query_type(event_type, query_type)
    check(result == expected, 'matches_query_type(%r, %r) is %r',
          event_type, query_type, result)
    result = common.create_subscription([query_type]).matches(event_type)
    check(result == expected, 'subscription %r matches %r is %r',
          query_type, event_type, result)


def matches_strategy():
    seg = gen.one_of(st.sampled_from(['a', 'b', '']),
                    st.text(alphabet=st.characters(
                        blacklist_characters='?*/',
                        blacklist_categories=['Cs']), max_size=3))

    @st.composite
    def pair(draw):
        event_type = draw(st.lists(seg, max_size=5))
        if draw(st.booleans()):
            query = [draw(st.sampled_from([i, '?'])) for i in event_type]
            edit = draw(st.integers(0, 4))
            pos = draw(st.integers(0, len(query)))
            if edit == 1:
                query = query[:pos]
            elif edit == 2:
                query = query[:pos] + ['*']
            elif edit == 3:
                query = query + ['*']
            elif edit == 4:
                query.insert(pos, draw(gen.one_of(seg, st.just('?'))))
        else:
            query = draw(st.lists(gen.one_of(seg, st.just('?')), max_size=5))
            if draw(st.booleans()):
                query = query + ['*']
        return [event_type, query]

    return pair()


def great_strategy():
    side = st.fixed_dictionaries({
        'count': st.sampled_from([1, 20, 150, 600, 1500]),
        'segments': st.sampled_from([2, 40, 300, 2000]),
        'depth': st.sampled_from([1, 2, 2, 3, 8, 60]),
        'wild': st.sampled_from([0, 0.02, 0.3]),
        'star': st.sampled_from([0, 0, 0.01, 0.5])})
    return st.fixed_dictionaries({
        'seed': st.integers(0, 10**6), 'first': side, 'second': side,
        'related': st.sampled_from(['no', 'same', 'tail'])})


def _overlap(first, second):
    """Is there event type matching both query types"""
    i = 0
    while True:
        a, b = first[i:i + 1], second[i:i + 1]
        if ('*',) in (a, b):
            return True
        if not a or not b:
            return not a and not b
        if a != b and ('?',) not in (a, b):
            return False
        i += 1


def great_run(case, ctx):
    """Many query types and long query types"""
    r = random.Random(case['seed'])

    def query_types(conf):
        result = []
        for _ in range(conf['count']):
            q = ['?' if r.random() < conf['wild'] else
                 f's{r.randrange(conf["segments"])}'
                 for _ in range(r.randint(1, conf['depth']))]
            if r.random() < conf['star']:
                q.append('*')
            result.append(tuple(q))
        return result

    first, second = query_types(case['first']), query_types(case['second'])
    if case['related'] == 'same':
        second[:0] = r.sample(first, min(len(first), 3))
    elif case['related'] == 'tail':
        # types with common beginning
        second[:] = [(*i[:-1], 'other') for i in r.sample(
            first, min(len(first), 20))]
    types = []
    for q in r.sample(first, min(len(first), 30)) + r.sample(
            second, min(len(second), 30)):
        t = [f's{r.randrange(50)}' if i in '?*' else i for i in q]
        types.append(tuple(t))
        types.append((*t, 's1'))
        types.append(tuple(t[:-1]))
        t[r.randrange(len(t))] = f's{r.randrange(2000)}'
        types.append(tuple(t))

    a, b = common.create_subscription(first), common.create_subscription(
        second)

    union = a.union(b)
    # number of combinations
    pairs = len(first) * len(second)
    inter = a.intersection(b) if pairs <= 10_000 else None
    for t in types:
        in_a = model.any_matches(t, first)
        in_b = model.any_matches(t, second)
        for name, sub, expected in (
                ('first', a, in_a), ('second', b, in_b),
                ('union', union, in_a or in_b),
                ('intersection', inter, in_a and in_b)):
            if sub is None:
                continue
            check(bool(sub.matches(t)) == expected,
                  '%s: matches(%r) is %r, %s and %s query types', name, t,
                  not expected, len(first), len(second))
        ctx.label('match' if in_a and in_b else
                  'match one' if in_a or in_b else 'no match')
    for name, sub, q in (('first', a, first), ('second', b, second)):
        listed = [tuple(i) for i in sub.get_query_types()]
        for t in types:
            check(model.any_matches(t, listed) == model.any_matches(t, q),
                  '%s: listed query types are wrong for %r', name, t)
    if pairs <= 30_000:
        expected = not any(_overlap(i, j) for i in first for j in second)
        for x, y in ((a, b), (b, a)):
            check(bool(x.isdisjoint(y)) == expected, 'isdisjoint is %r, %s '
                  'and %s query types', not expected, len(first), len(second))
        ctx.label('disjoint' if expected else 'overlapping')
    ctx.nontrivial = (len(first) + len(second) > 100 or
                      max(map(len, first + second)) > 10)


SUBS = [
    Sub('algebra', lambda: st.lists(expr_strategy(), min_size=1, max_size=2),
        run_algebra, 5000, 100000,
        'union/intersection expressions over query type sets, compared with '
        'set operations over all types of length <= 4 over the used segments '
        'and one fresh segment; non-trivial: some (sub)expression matches '
        'some but not all types'),
    Sub('matches', matches_strategy, run_matches, 8000, 200000,
        'event type with query type derived from it or independent; '
        'non-trivial: non-empty query type'),
    Sub('great', great_strategy, great_run, 160, 3000,
        'more than 100 query types or more than 10 segments')]
