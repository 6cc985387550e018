"""Timestamp arithmetic and conversions"""
TECHNIQUE = 'property-based testing: round trips, order and arithmetic laws'
NOTE = (
    'Laws are evaluated over exact rational time; float conversions are'
    ' required to be within float precision only.')

from fractions import Fraction
import datetime
import math

from hypothesis import strategies as st

from vlib import gen, patches
from vlib.core import Sub, check

from hat.event import common

UTC = datetime.timezone.utc
EPOCH = patches.real_datetime(1970, 1, 1, tzinfo=UTC)
MIN_S = -62135596800  # 0001-01-01
MAX_S = 253402300799  # 9999-12-31 23:59:59

_us = gen.one_of(st.integers(0, 999_999),
                st.sampled_from([0, 1, 499_999, 500_000, 500_001, 999_998,
                                 999_999]))
_s_small = gen.one_of(st.integers(-3, 3), st.integers(-2**31, 2**31 - 1))
_s_dt = gen.one_of(st.integers(-3, 3), st.integers(MIN_S, MAX_S),
                  st.integers(MIN_S, MIN_S + 2), st.integers(MAX_S - 2, MAX_S),
                  st.integers(16_000_000_000, 18_000_000_000))
_s_full = gen.one_of(st.integers(-2**63, 2**63 - 1), _s_small,
                    st.sampled_from([-2**63, -2**63 + 1, 2**63 - 1,
                                     2**63 - 2, -2**32, 2**32, -1, 0, 1]))


def _exact(t):
    return Fraction(t.s) + Fraction(t.us, 1_000_000)


def _normalised(t, what):
    check(isinstance(t, common.Timestamp) and
          isinstance(t.s, int) and isinstance(t.us, int) and
          0 <= t.us < 1_000_000, '%s result %r not normalised', what, t)


def run_bytes(case, ctx):
    ts = [common.Timestamp(*i) for i in case]
    data = []
    for t in ts:
        b = bytes(common.timestamp_to_bytes(t))
        check(len(b) == 12, 'length of %r', b)
        result = common.timestamp_from_bytes(b)
        check(result == t, '%r from bytes of %r', result, t)
        check(b[:8] == (t.s + 2**63).to_bytes(8, 'big') and
              b[8:] == t.us.to_bytes(4, 'big'),
              'bytes %r of %r differ from documented', b, t)
        data.append((b, t))
    (b1, t1), (b2, t2) = data
    check((b1 < b2) == (t1 < t2) and (b1 == b2) == (t1 == t2),
          'byte order of %r %r', t1, t2)
    for t in (common.min_timestamp, common.max_timestamp):
        check(common.timestamp_from_bytes(common.timestamp_to_bytes(t)) == t,
              'limit %r', t)
    ctx.nontrivial = t1 != t2
    if t1.s < 0 or t2.s < 0:
        ctx.label('negative')


def bytes_strategy():
    @st.composite
    def pair(draw):
        t1 = [draw(_s_full), draw(_us)]
        kind = draw(st.integers(0, 3))
        if kind == 0:
            t2 = [t1[0], draw(_us)]
        elif kind == 1:
            s = t1[0] + draw(st.integers(-2, 2))
            t2 = [min(max(s, -2**63), 2**63 - 1), t1[1]]
        else:
            t2 = [draw(_s_full), draw(_us)]
        return [t1, t2]
    return pair()


def run_datetime(case, ctx):
    s, us, offset = case
    t = common.Timestamp(s, us)
    expected = EPOCH + datetime.timedelta(seconds=s, microseconds=us)
    ctx.nontrivial = True
    if s < 0:
        ctx.label('before 1970')
    if us == 0:
        ctx.label('whole second')

    dt = common.timestamp_to_datetime(t)
    check(dt == expected and dt.tzinfo is not None and
          dt.utcoffset() == datetime.timedelta(0),
          'timestamp_to_datetime(%r) is %r', t, dt)

    variants = [expected, expected.replace(tzinfo=None)]
    if MIN_S + 90000 < s < MAX_S - 90000:
        tz = datetime.timezone(datetime.timedelta(minutes=offset))
        variants.append(expected.astimezone(tz))
    for dt in variants:
        result = common.timestamp_from_datetime(dt)
        _normalised(result, 'timestamp_from_datetime')
        check(result == t, 'timestamp_from_datetime(%r) is %r, expected %r',
              dt, result, t)


def run_float(case, ctx):
    s, us, value = case
    t = common.Timestamp(s, us)
    ctx.nontrivial = us != 0
    f = common.timestamp_to_float(t)
    check(abs(Fraction(f) - _exact(t)) <= Fraction(math.ulp(float(s))) +
          Fraction(1, 10**12), 'timestamp_to_float(%r) is %r', t, f)
    result = common.timestamp_from_float(f)
    _normalised(result, 'timestamp_from_float')
    check(result == t, 'float round trip of %r is %r', t, result)

    # arbitrary float
    result = common.timestamp_from_float(value)
    _normalised(result, 'timestamp_from_float')
    tolerance = (Fraction(51, 10**8) + 2 * Fraction(math.ulp(value)))
    check(abs(_exact(result) - Fraction(value)) <= tolerance,
          'timestamp_from_float(%r) is %r', value, result)
    if value < 0:
        ctx.label('negative float')

    patches.Clock.now = lambda: value
    try:
        result = common.now()
    finally:
        patches.Clock.now = None
    _normalised(result, 'now')
    check(abs(_exact(result) - Fraction(value)) <=
          Fraction(2, 10**6) + 2 * Fraction(math.ulp(value)),
          'now() is %r at %r', result, value)


def run_add(case, ctx):
    s, us, delta = case
    t = common.Timestamp(s, us)
    result = t.add(delta)
    _normalised(result, 'add')
    ctx.nontrivial = delta != 0
    if delta < 0:
        ctx.label('negative delta')
    if isinstance(delta, float) and delta != int(delta):
        ctx.label('fractional delta')
    error = abs(_exact(result) - _exact(t) - Fraction(delta))
    check(error <= Fraction(51, 10**8), '%r.add(%r) is %r', t, delta, result)


_float = gen.one_of(st.floats(-2.0**33, 2.0**33, allow_nan=False),
                   st.floats(-4, 4, allow_nan=False),
                   st.builds(lambda s, us: s + us / 1e6, _s_small, _us),
                   st.integers(-10, 10).map(float))

SUBS = [
    Sub('bytes', bytes_strategy, run_bytes, 8000, 100000,
        'pairs of timestamps of the whole range, related or independent; '
        'non-trivial: different timestamps'),
    Sub('datetime', lambda: st.tuples(_s_dt, _us,
                                      st.integers(-23 * 60, 23 * 60)),
        run_datetime, 12000, 200000,
        'timestamps of years 1 to 9999 with any utc offset; all cases count'),
    Sub('float', lambda: st.tuples(_s_small, _us, _float), run_float,
        12000, 200000,
        'timestamps and floats; non-trivial: non-zero microseconds'),
    Sub('add', lambda: st.tuples(_s_small, _us, gen.one_of(
        _float, st.integers(-10**6, 10**6))), run_add, 8000, 100000,
        'timestamp plus integer or float; non-trivial: non-zero')]
