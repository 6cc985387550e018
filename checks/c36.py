"""Compiled implementations of subscriptions and collections"""
TECHNIQUE = (
    'property-based testing: model-based oracle and differential testing of '
    'C and Python implementations, address sanitizer and accounting of '
    'memory as additional oracles')
NOTE = (
    'C sources of the repository are compiled with the address sanitizer '
    'against a stand-in of the hash table of hat-util, which is not '
    'available offline. Each case runs in a forked process, so invalid '
    'access to memory is a failure of that case. ')

C_EXTENSIONS = True

import ctypes
import gc
import os
import pickle
import signal
import sys

from hypothesis import strategies as st

from checks import c01, c02
from vlib import core, gen, model
from vlib.core import Sub, check

from hat.event import common
from hat.event.common.collection.ctree import CTreeEventTypeCollection
from hat.event.common.collection.pytree import PyTreeEventTypeCollection
from hat.event.common.subscription.csubscription import CSubscription
from hat.event.common.subscription.pysubscription import PySubscription
from hat.event.common.collection import _ctree
from hat.event.common.subscription import _csubscription

_libraries = [ctypes.CDLL(i.__file__) for i in (_csubscription, _ctree)]


def forked(fn):
    """Run case in its own process"""

    def run(case, ctx):
        report = ctx.tmp / 'report'
        result = ctx.tmp / 'result'
        pid = os.fork()
        if not pid:
            code = 3
            try:
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.alarm(120)
                gc.freeze()
                fd = os.open(report, os.O_CREAT | os.O_WRONLY, 0o600)
                os.dup2(fd, 2)
                try:
                    fn(case, ctx)
                    data = None
                except core.Violation as e:
                    data = str(e)
                except Exception as e:
                    if not core.from_product(
                            e, os.environ['VERIF_OVERLAY']) and not isinstance(
                            e, (SystemError, MemoryError)):
                        raise
                    data = 'unexpected exception: ' + core.describe(e)
                result.write_bytes(pickle.dumps(
                    (data, ctx.labels, ctx.nontrivial)))
                code = 0
            except BaseException as e:
                os.write(2, core.describe(e).encode())
            finally:
                os._exit(code)
        _, status = os.waitpid(pid, 0)
        text = report.read_text(errors='replace') if report.exists() else ''
        if status == 3 << 8:
            raise core.HarnessError(text[-4000:])
        check(status == 0, 'process ended with status %s: %s', status,
              text[:4000])
        message, labels, ctx.nontrivial = pickle.loads(result.read_bytes())
        for k, v in labels.items():
            ctx.label(k, v)
        check(message is None, '%s', message)

    return run


def _create(cls, expr):
    if expr[0] == 'leaf':
        return cls(tuple(i) for i in expr[1])
    args = [_create(cls, i) for i in expr[1:]]
    return getattr(args[0], expr[0])(*args[1:])


def run_mixed(case, ctx):
    """Operations of subscriptions of different implementations"""
    first, second = case
    a = {cls: _create(cls, first) for cls in (CSubscription, PySubscription)}
    b = {cls: _create(cls, second) for cls in (CSubscription, PySubscription)}
    expected = [_types(i[PySubscription]) for i in (a, b)]
    ctx.nontrivial = all(0 < len(i) < len(c01._universe) for i in expected)
    for x in a.values():
        for y in b.values():
            disjoint = not (expected[0] & expected[1])
            check(bool(x.isdisjoint(y)) == disjoint,
                  'isdisjoint of %s %r and %s %r', type(x).__name__, first,
                  type(y).__name__, second)
            check(_types(x.union(y)) == expected[0] | expected[1],
                  'union of %s %r and %s %r', type(x).__name__, first,
                  type(y).__name__, second)
            check(_types(x.intersection(y)) == expected[0] & expected[1],
                  'intersection of %s %r and %s %r', type(x).__name__, first,
                  type(y).__name__, second)
    sets = [{*map(tuple, i.get_query_types())} for i in a.values()]
    check(sets[0] == sets[1], 'query types %r and %r of %r', *sets, first)


def _types(sub):
    return {t for t in c01._universe if sub.matches(t)}


# usual and unusual names
_names = gen.one_of(
    st.sampled_from(['a', 'b']),
    st.sampled_from(['', '\0', 'a\0', '\0a', 'ab', 'xyz', 'č', '\U0001f600', 'x' * 60,
                     ' ', '\n']))
_query_type = st.builds(
    lambda head, tail: [*head, *tail],
    st.lists(gen.one_of(_names, st.just('?')), max_size=4),
    st.sampled_from([[], [], ['*']]))
_query_types = st.lists(_query_type, max_size=5)
_event_type = st.lists(_names, max_size=5)


def history_strategy():
    value = st.integers(0, 4)
    return st.fixed_dictionaries({
        'types': st.lists(_event_type, min_size=1, max_size=6),
        'ops': st.lists(gen.one_of(
            st.tuples(st.just('add'), value, _query_types),
            st.tuples(st.just('add'), value, _query_types),
            st.tuples(st.just('remove'), value),
            st.tuples(st.just('get')),
            st.tuples(st.just('renew')),
            st.tuples(st.just('invalid'), st.sampled_from(
                ['inner', 'number', 'none', 'surrogate', 'list'])),
            ), min_size=1, max_size=14)})


class _Value:
    pass


def _invalid(kind):
    collection = CTreeEventTypeCollection()
    bad = {'inner': [('a', 'b'), ('*', 'a')], 'number': [('a', 1)],
           'none': [('a', ), None], 'surrogate': [('a', '\ud800')],
           'list': [1]}[kind]
    try:
        CSubscription(bad)
        check(False, 'query types %r accepted', bad)
    except (ValueError, TypeError, RuntimeError):
        pass
    sub = CSubscription([('a', '?')])
    for call in (lambda: sub.matches(None),
                 lambda: sub.matches(1),
                 lambda: sub.matches(('a', 1)),
                 lambda: sub.matches(('a', '\ud800')),
                 lambda: collection.get(None)):
        try:
            call()
        except (ValueError, TypeError, RuntimeError, AttributeError):
            pass


def _history(case, ctx, values):
    types = [tuple(i) for i in case['types']]
    collection = CTreeEventTypeCollection()
    subs = {}
    expected = {}
    removed = False
    for op in case['ops']:
        if op[0] == 'add':
            _, i, query_types = op
            query_types = [tuple(i) for i in query_types]
            sub = CSubscription(iter(query_types))
            for t in types:
                check(sub.matches(t) is model.any_matches(t, query_types),
                      'matches(%r) of %r', t, query_types)
            collection.add(sub, values[i])
            expected.setdefault(i, []).extend(query_types)
            subs[i] = subs[i].union(sub) if i in subs else sub

        elif op[0] == 'remove':
            _, i = op
            removed = removed or bool(expected.get(i))
            collection.remove(values[i])
            expected.pop(i, None)
            subs.pop(i, None)

        elif op[0] == 'renew':
            collection = CTreeEventTypeCollection(
                (CSubscription(query_types), values[i])
                for i, query_types in expected.items())

        elif op[0] == 'invalid':
            _invalid(op[1])

        for t in types:
            result = collection.get(t)
            check({*map(id, result)} == {
                id(values[i]) for i, query_types in expected.items()
                if model.any_matches(t, query_types)},
                'get(%r) is wrong after %r of %r', t, op, case['ops'])
            check(len({*map(id, result)}) == len([*result]),
                  'get(%r) is %r', t, result)
            for i, query_types in expected.items():
                if i in subs:
                    check(subs[i].matches(t) is
                          model.any_matches(t, query_types),
                          'union matches %r for %r', t, query_types)
    return removed, sum(1 for i in expected.values() if i)


def run_history(case, ctx):
    values = [_Value() for _ in range(5)]
    names = [j for i in case['types'] for j in i]
    names.extend(j for op in case['ops'] if op[0] == 'add'
                 for i in op[2] for j in i)
    counts = [sys.getrefcount(i) for i in values]
    removed, count = _history(case, ctx, values)
    ctx.nontrivial = bool(removed or count > 1)
    if removed:
        ctx.label('values removed')

    gc.collect()
    after = [sys.getrefcount(i) for i in values]
    check(after == counts, 'references of values: %r, before %r', after,
          counts)

    counts = [sys.getrefcount(i) for i in names]
    _history(case, ctx, values)
    gc.collect()
    after = [sys.getrefcount(i) for i in names]
    check(after == counts, 'references of names: %r, before %r', after, counts)

    # every block allocated by extensions is released
    gc.collect()
    live = [i.verif_live() for i in _libraries]
    check(live == [0, 0], 'blocks of memory not released: %r', live)


SUBS = [
    Sub('algebra', lambda: st.lists(c01.expr_strategy(), min_size=1,
                                    max_size=2),
        forked(c01.run_algebra), 1000, 30000,
        'expressions of C01 with compiled subscriptions; ' + c01.SUBS[0].rule),
    Sub('mixed', lambda: st.tuples(c01.expr_strategy(), c01.expr_strategy()),
        forked(run_mixed), 1000, 30000,
        'operations between two subscriptions, each in both implementations; '
        'non-trivial: both match some but not all types'),
    Sub('collection', c02.strategy, forked(c02.run), 1000, 30000,
        'histories of C02 with compiled collection as default; ' +
        c02.SUBS[0].rule),
    Sub('great', c01.great_strategy, forked(c01.great_run), 120, 3000,
        'as great of C01 with compiled subscriptions'),
    Sub('great_collection', c02.great_strategy, forked(c02.great_run), 64,
        1500, 'as great of C02 with compiled collection'),
    Sub('history', history_strategy, forked(run_history), 1000, 30000,
        'histories of compiled collection with unusual names, objects as '
        'values, renewed collections and invalid arguments, references and '
        'allocated memory compared; non-trivial: a value with query types '
        'removed or at least two at the end')]
