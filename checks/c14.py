"""LMDB retention"""
TECHNIQUE = ('stateful model-based property testing of the real LMDB backend '
             'with virtual time')
NOTE = ('After each step the content of every partition is observed in a '
        'copy of the database opened with only that partition and compared '
        'with everything ever written. Size limit is decided within bounds '
        '(it is defined by average entry size), count and age limits '
        'exactly.')

import asyncio
import shutil

from hypothesis import strategies as st

from vlib import gen, lmdbm, sim
from vlib.core import Sub, check

from hat.event import common

PERIOD = 10

_count = st.integers(0, 6)

_duration = st.sampled_from([0, 1, 0.5, 2.25, 30, 100, 100.5, 300, 1000, 1e6,
                             2e9, 1e12])

_limit = gen.one_of(
    st.just({}),
    st.fixed_dictionaries({'max_entries': _count}),
    st.fixed_dictionaries({'max_entries': _count, 'min_entries': _count}),
    st.fixed_dictionaries({'duration': _duration}),
    st.fixed_dictionaries({'duration': _duration,
                           'min_entries': _count}),
    st.fixed_dictionaries({'size': st.sampled_from([0, 20_000, 10**9])}),
    st.fixed_dictionaries({'size': st.sampled_from([0, 20_000, 10**9]),
                           'min_entries': _count}),
    st.fixed_dictionaries(
        {}, optional={'max_entries': _count, 'min_entries': _count,
                      'duration': _duration,
                      'size': st.sampled_from([0, 20_000, 10**9])}))

_limits = gen.one_of(st.none(), _limit, _limit, _limit)

_source_ts = gen.one_of(
    st.none(), st.tuples(st.integers(-400, 400).map(
        lambda i: lmdbm.BASE_S + i), st.sampled_from([0, 1, 999_999])
    ).map(list))

_payload = gen.one_of(st.none(), st.just({'json': 1}),
                     st.just({'bin': ['', '00' * 500]}))

_spec = lmdbm.event_spec(id_step=lmdbm.good_id_step,
                         t_step=gen.weighted(
                             (3, lmdbm.good_t_step), (1, st.just('quarter'))),
                         types=lmdbm.few_types,
                         st_=_source_ts, payload=_payload)


def strategy():
    wait = st.tuples(st.just('wait'), st.sampled_from(
        [0, 1, 5, 10, 11, 25, 25, 60, 100, 300]))
    ops = gen.one_of(
        lmdbm.reg_op(_spec, 6), lmdbm.reg_op(_spec, 6), lmdbm.flush_op,
        lmdbm.flush_op, wait, wait, wait, lmdbm.reopen_op)

    @st.composite
    def s(draw):
        case = draw(lmdbm.history(ops, max_ops=14, max_confs=2,
                                  limits=_limits))
        case['sim'] = {'exec_start': draw(st.lists(st.integers(-3, 0),
                                                   max_size=2)),
                       'exec_done': draw(st.lists(st.integers(-3, 0),
                                                  max_size=2))}
        if draw(st.booleans()):
            case['ops'].extend([['flush'], ['wait', 25]])
        return case

    return s()


def bulk_strategy():
    bulk = st.tuples(st.just('bulk'), st.sampled_from(
        [30, 1000, 1024, 1025, 1100, 1300, 2600]))
    wait = st.tuples(st.just('wait'), st.sampled_from([0, 5, 10, 25]))

    @st.composite
    def s(draw):
        limits = st.fixed_dictionaries(
            {}, optional={'max_entries': st.sampled_from([0, 3, 1000, 1500]),
                          'min_entries': st.sampled_from([0, 10, 1200]),
                          'duration': st.sampled_from([0, 1, 100]),
                          'size': st.sampled_from([0, 20_000, 400_000])})
        limit = draw(limits)
        return {'pool': [{'by_source': False, 'subscriptions': [['*']]},
                         {'by_source': True, 'subscriptions': [['*']]}],
                'confs': [{'latest': [['*']],
                           'parts': draw(st.sampled_from(
                               [[[0, limit]], [[1, limit], [0, limit]],
                                [[1, {'max_entries': 5}], [0, limit]],
                                [[1, draw(limits)], [0, limit]]])),
                           'conditions': [], 'identifier': None}],
                'sim': {},
                'bulk': True,
                'ops': [draw(bulk), *draw(st.sampled_from([[], [['flush']]])),
                        draw(wait),
                        *draw(st.lists(gen.one_of(bulk, lmdbm.flush_op, wait),
                                       max_size=2)), ['flush'],
                        ['wait', draw(st.sampled_from([11.5, 25]))]]}

    return s()


async def _observe(d, i, path):
    """Content of a partition in current database file"""
    copy = path.with_name('copy')
    shutil.copy(path, copy)
    part = d.pool[i]
    conf = {'latest': [], 'parts': [[0, None]], 'conditions': [],
            'identifier': None}
    backend = await lmdbm.lmdb_info.create(
        {**lmdbm.backend_conf([part], conf, copy),
         'timeseries_max_results': 10**9}, None, None)
    try:
        result, more = gen.result_of(await backend.query(d.params(
            {**lmdbm.full_query, 'by_source': part['by_source']})))
    finally:
        await backend.async_close()
        copy.unlink()
        copy.with_name('copy-lock').unlink(missing_ok=True)
    check(not more, 'more_follows without limit')
    return {(lmdbm.ts_key(i.source_timestamp if part['by_source']
                          else i.timestamp), i.id): i for i in result}


def _us(seconds):
    return round(seconds * 1_000_000)


def run(case, ctx):
    # written[i]: key -> time at which it was certainly written
    written = {}
    last_start = [0.0]  # time since which cleanup loop is running

    def note(d, loop):
        for i in range(len(d.pool)):
            for k in d.model.disk.parts.get(i, {}):
                written.setdefault((i, k), loop.epoch + loop.time())

    async def verify(d, loop):
        await sim.settle(loop, 300)
        now = loop.epoch + loop.time()
        note(d, loop)
        conf = {i: limit for i, limit in d.model.conf['parts']}
        for i in range(len(d.pool)):
            expected = d.model.disk.parts.get(i, {})
            actual = await _observe(d, i, ctx.tmp / 'db')
            order = sorted(expected)
            keys = sorted(actual)
            check(len(keys) <= len(order) and
                  keys == order[len(order) - len(keys):],
                  'partition %s with limit %r contains %r, expected newest '
                  'of %r', i, conf.get(i), keys[:20], order[:20])
            check(gen.same([actual[k] for k in keys],
                           [expected[k] for k in keys]),
                  'partition %s: content changed', i)
            removed = order[:len(order) - len(keys)]
            limit = conf.get(i) or {}
            min_entries = limit.get('min_entries', 0)
            sizes = [200 + (len(e.payload.data) if e.payload and
                            hasattr(e.payload, 'type') else 0)
                     for e in expected.values()]
            if removed:
                ctx.label('removed entries', len(removed))
                n = len(keys) + 1
                check(n > min_entries, 'partition %s: %s entries left with '
                      'limit %r', i, len(keys), limit)
                by_count = ('max_entries' in limit and
                            n > limit['max_entries'])
                t = removed[-1][0]
                by_age = ('duration' in limit and
                          t[0] * 1_000_000 + t[1] <
                          _us(now - limit['duration']))
                by_size = ('size' in limit and
                           n * max(sizes) * 5 + 4 * 4096 > limit['size'])
                check(by_count or by_age or by_size,
                      'partition %s: %r removed, %s entries left, limit %r, '
                      'now %s', i, removed[-1], len(keys), limit, now)
                ctx.label(f'removal by count {by_count} age {by_age} size '
                          f'{by_size}')
            # what had to be removed by now
            done = now - PERIOD - 1
            if done > last_start[0]:
                settled = [k for k in keys if written[i, k] <= done]
                if settled and len(keys) > min_entries:
                    fresh = len(keys) - len(settled)
                    if 'max_entries' in limit:
                        check(len(settled) <= max(limit['max_entries'],
                                                  min_entries),
                              'partition %s: %s entries with limit %r', i,
                              len(settled), limit)
                    if 'duration' in limit and len(settled) > min_entries:
                        t = settled[0][0]
                        check(t[0] * 1_000_000 + t[1] >=
                              _us(done - limit['duration']),
                              'partition %s: oldest entry %r, limit %r, now '
                              '%s', i, settled[0], limit, now)
                    if 'size' in limit and not fresh and len(
                            keys) > min_entries:
                        size = sum(
                            len(e.payload.data) if e.payload and
                            hasattr(e.payload, 'type') else 0
                            for e in actual.values())
                        uniform = (len({*sizes}) == 1 and sum(
                            bool(v) for v in d.model.disk.parts.values()
                        ) == 1)
                        if uniform or limit['size'] == 0:
                            check(size <= limit['size'] and
                                  (limit['size'] or not keys),
                                  'partition %s: %s entries of %s bytes, '
                                  'limit %r', i, len(keys), size, limit)
                        ctx.label('size limit verified')
            # accept removal
            for store in (d.model.disk, d.model.mem):
                part = store.parts.get(i, {})
                for k in removed:
                    part.pop(k, None)
            ctx.nontrivial = ctx.nontrivial or bool(removed and keys)

        if case.get('bulk'):
            return

        # removed events are not visible any more
        for server in lmdbm.SERVERS:
            await d.check_server(server, True, None, None)
            await d.check_server(server, False, None, None)
        for by_source in (False, True):
            await d.check_timeseries({**lmdbm.full_query,
                                      'by_source': by_source})
        await d.check_latest(None)
        await d.check_last_ids()

    async def main(loop):
        async with lmdbm.driver(case['pool'], case['confs'], ctx.tmp / 'db',
                                cleanup_period=PERIOD) as d:
            await d.open(0)
            last_start[0] = loop.epoch + loop.time()
            for op in case['ops']:
                if op[0] == 'wait':
                    await asyncio.sleep(op[1])
                elif op[0] == 'bulk':
                    await d.register([
                        {'srv': 0, 'id': 'next', 't': 'us', 'type': ['a'],
                         'st': [lmdbm.BASE_S, 0], 'payload': None}
                        for _ in range(op[1])])
                elif op[0] == 'reopen':
                    await d.close()
                    await d.open(op[1])
                    last_start[0] = loop.epoch + loop.time()
                else:
                    await lmdbm.play(d, [op], ctx)
                note(d, loop)
                if not case.get('bulk'):
                    await verify(d, loop)
            if case.get('bulk'):
                await verify(d, loop)

    sim.run(main, case['sim'])


# offsets in microseconds from the moment at which an entry becomes too old
_offset = st.sampled_from([
    -5_000_000, -1_000_000, -999_999, -750_000, -500_000, -100_000, -1000, -3,
    3, 1000, 100_000, 250_000, 500_000, 750_000, 999_999, 1_000_000,
    5_000_000])


def age_strategy():
    return st.fixed_dictionaries({
        'by_source': st.booleans(),
        'cleanups': st.integers(1, 3),
        'whole': gen.one_of(st.integers(0, 30), st.integers(30, 1_000_000)),
        'fraction': gen.weighted(
            (1, st.just(0)), (1, st.integers(0, 999_999)),
            (2, st.sampled_from([1000, 100_000, 250_000, 500_000, 750_000,
                                 900_000, 999_999]))),
        'offsets': st.lists(_offset, min_size=2, max_size=8),
        'min_entries': gen.weighted((3, st.just(0)), (1, _count)),
        'sim': st.just({})})


def age_run(case, ctx):
    """Entries around the exact age limit"""
    duration = case['whole'] * 1_000_000 + case['fraction']
    limit = {'duration': duration / 1_000_000}
    if case['min_entries']:
        limit['min_entries'] = case['min_entries']
    pool = [{'by_source': case['by_source'], 'subscriptions': [['*']]}]
    conf = {'latest': [], 'parts': [[0, limit]], 'conditions': [],
            'identifier': None}

    async def main(loop):
        async with lmdbm.driver(pool, [conf], ctx.tmp / 'db',
                                cleanup_period=PERIOD) as d:
            await d.open(0)
            last = loop.time() + case['cleanups'] * PERIOD
            bound = _us(loop.epoch + last) - duration
            # timestamps of events do not decrease
            offsets = (case['offsets'] if case['by_source']
                       else sorted(case['offsets']))
            batch = []
            for i, offset in enumerate(offsets):
                t = common.Timestamp(*divmod(bound + offset, 1_000_000))
                batch.append(common.Event(
                    common.EventId(1, 1, i + 1), ('a', ),
                    common.Timestamp(1, 0) if case['by_source'] else t,
                    t if case['by_source'] else None, None))
            await d.backend.register(batch)
            await d.backend.flush()
            await asyncio.sleep(last + 0.5 - loop.time())
            result, _ = gen.result_of(await d.backend.query(
                common.QueryTimeseriesParams(
                    order=common.Order.ASCENDING,
                    order_by=(common.OrderBy.SOURCE_TIMESTAMP
                              if case['by_source'] else
                              common.OrderBy.TIMESTAMP))))
            expected = sorted(zip(offsets, (i.id for i in batch)))
            fresh = sum(1 for i in offsets if i > 0)
            count = max(fresh, min(case['min_entries'], len(batch)))
            expected = [i for _, i in expected[len(batch) - count:]]
            check([i.id for i in result] == expected,
                  'limit %r, offsets in us %r: kept %r, expected %r', limit,
                  offsets, [i.id.instance for i in result],
                  [i.instance for i in expected])
            ctx.nontrivial = 0 < fresh < len(batch)
            ctx.label('fractional' if case['fraction'] else 'whole seconds')

    sim.run(main, case['sim'])


def size_strategy():
    return st.fixed_dictionaries({
        'payload': gen.one_of(
            st.integers(0, 1500), st.integers(1500, 20_000),
            st.sampled_from([1900, 2000, 2040, 2100, 3900, 4096, 4200, 8192,
                             10_000, 60_000])),
        'size': st.sampled_from([10_000, 20_000, 50_000, 100_000, 300_000,
                                 10**7]),
        'ratio': st.sampled_from([1, 10, 50, 90, 110, 200, 400]),
        'min_entries': gen.weighted((3, st.just(0)), (1, st.integers(0, 60))),
        'batch': st.sampled_from([1, 7, 100]),
        'other': st.booleans(),
        'sim': st.just({})})


def size_run(case, ctx):
    """Partition of equal entries around the limit of size"""
    payload = case['payload']
    count = min(max(1, case['size'] * case['ratio'] // 100 //
                    (payload + 100)), 2000)
    limit = {'size': case['size']}
    if case['min_entries']:
        limit['min_entries'] = case['min_entries']
    pool = [{'by_source': False, 'subscriptions': [['*']]},
            {'by_source': True, 'subscriptions': [['*']]}]
    conf = {'latest': [],
            'parts': [[0, limit], *([[1, None]] if case['other'] else [])],
            'conditions': [], 'identifier': None}

    async def main(loop):
        async with lmdbm.driver(pool, [conf], ctx.tmp / 'db',
                                cleanup_period=PERIOD) as d:
            await d.open(0)
            events = [
                common.Event(common.EventId(1, 1, i + 1), ('a', ),
                             common.Timestamp(i, 0), common.Timestamp(1, 0),
                             common.EventPayloadBinary('', bytes(payload)))
                for i in range(count)]
            for i in range(0, count, case['batch']):
                await d.backend.register(events[i:i+case['batch']])
            await d.backend.flush()
            await asyncio.sleep(2 * PERIOD + 1)

            kept = []
            last_id = None
            while True:
                result, more = gen.result_of(await d.backend.query(
                    common.QueryTimeseriesParams(
                        order=common.Order.ASCENDING,
                        last_event_id=last_id)))
                kept.extend(result)
                if not more:
                    break
                last_id = result[-1].id
            kept = [i.id.instance for i in kept]
            n = len(kept)
            check(kept == [i.id.instance for i in events[count - n:]],
                  'kept %r of %s', kept[:20], count)
            check(n <= case['min_entries'] or n * payload <= case['size'],
                  '%s entries of %s bytes kept with limit %r', n, payload,
                  limit)
            check(n >= min(case['min_entries'], count), '%s entries of %s '
                  'kept with limit %r', n, count, limit)
            # entries take at most this much, also in half filled pages
            most = (5 * (payload + 200) if payload < 1800 else
                    (payload + 300 + 4095) // 4096 * 4096 + 1000)
            check(n == count or (n + 1) * most + 4 * 4096 > case['size'],
                  '%s entries of %s bytes kept of %s with limit %r', n,
                  payload, count, limit)
            ctx.nontrivial = 0 < n < count
            ctx.label('overflow pages' if payload > 2040 else 'leaf pages')

    sim.run(main, case['sim'])


SUBS = [
    Sub('history', strategy, run, 1600, 40000,
        'histories in which retention removes a part of some partition'),
    Sub('age', age_strategy, age_run, 400, 12000,
        'cases in which the age limit removes some of the entries'),
    Sub('size', size_strategy, size_run, 240, 6000,
        'cases in which the limit of size removes some of the entries'),
    Sub('bulk', bulk_strategy, run, 96, 1600,
        'cases with thousands of events in which retention removes a part '
        'of some partition')]
