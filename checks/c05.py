"""Natural order of events"""
TECHNIQUE = 'property-based testing against an independent order definition'
NOTE = ('Pairs and triples of events are drawn from dense small domains (and '
        'wide ones), so that all coincidences of ids and timestamps occur; '
        'exhaustive enumeration of the small domain is part of every run.')

import itertools

from hypothesis import strategies as st

from vlib import gen
from vlib.core import Sub, check

from hat.event import common

_servers = [1, 2]
_small = [0, 1, 2]


def _event(x):
    server, session, instance, s, us, t = x
    return common.Event(
        id=common.EventId(server, session, instance), type=('t', str(t)),
        timestamp=common.Timestamp(s, us), source_timestamp=None,
        payload=common.EventPayloadJson(t) if t else None)


def _expected(x, y):
    """(x < y, x > y) with x considered first"""
    if x[:3] == y[:3]:
        return False, False
    if x[0] == y[0]:
        before = (x[1] < y[1]) if x[1] != y[1] else (x[2] < y[2])
        return before, not before
    if x[3:5] != y[3:5]:
        before = (x[3] < y[3]) if x[3] != y[3] else (x[4] < y[4])
        return before, not before
    return True, False


def _check_pair(x, y):
    a, b = _event(x), _event(y)
    lt, gt = _expected(x, y)
    check(bool(a < b) == lt, '%r < %r is %r', a, b, a < b)
    check(bool(a > b) == gt, '%r > %r is %r', a, b, a > b)


def run_pair(case, ctx):
    x, y = case
    ctx.nontrivial = True
    ctx.label('same id' if x[:3] == y[:3] else
              'same server' if x[0] == y[0] else
              'same timestamp' if x[3:5] == y[3:5] else 'different')
    _check_pair(x, y)
    _check_pair(y, x)


def pair_strategy():
    def domain(i):
        return gen.one_of(st.sampled_from([0, 1, 2]), i)

    wide = st.integers(0, 2**64 - 1)
    event = st.tuples(domain(wide), domain(wide), domain(wide),
                      domain(st.integers(-2**63, 2**63 - 1)),
                      domain(st.integers(0, 999_999)),
                      st.integers(0, 1)).map(list)

    def near(x):
        """second event equal to the first one in all but few fields"""
        return st.tuples(st.just(x), st.tuples(
            *(gen.one_of(st.just(i), st.just(i), j)
              for i, j in zip(x, [wide, wide, wide,
                                  st.integers(-2**63, 2**63 - 1),
                                  st.integers(0, 999_999),
                                  st.integers(0, 1)]))).map(list))

    return gen.one_of(st.tuples(event, event), event.flatmap(near),
                     event.flatmap(near))


def run_all(case, ctx):
    """Exhaustive small domain, one slice for each case"""
    server, session, s = case
    ctx.nontrivial = True
    domain = [*itertools.product(_servers, _small, _small, _small, [0, 1],
                                 [0])]
    for x in domain:
        if x[0] != server or x[1] != session or x[3] != s:
            continue
        for y in domain:
            _check_pair(list(x), list(y))
            _check_pair(list(y), list(x))
            ctx.label('pairs')


SUBS = [
    Sub('pairs', pair_strategy, run_pair, 20000, 400000,
        'all distinct ordered pairs of events count'),
    Sub('domain', lambda: st.tuples(st.sampled_from(_servers),
                                    st.sampled_from(_small),
                                    st.sampled_from(_small)), run_all,
        320, 640, 'slices of the exhaustively compared small domain')]
