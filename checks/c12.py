"""LMDB reopen"""
TECHNIQUE = 'stateful model-based property testing of the real LMDB backend'
NOTE = ('Histories over several configurations (storages, conditions, '
        'identifiers) with close/reopen and with opening of a copy of the '
        'database file taken after flush; arbitrary event content. All '
        'queries and last ids are compared with the model after each step.')

import shutil

from hypothesis import strategies as st

from vlib import gen, lmdbm, patches, sim
from vlib.core import Sub, check

from hat.event import common

_spec = lmdbm.event_spec(
    id_step=gen.one_of(lmdbm.good_id_step, lmdbm.good_id_step, lmdbm.id_step),
    t_step=gen.one_of(lmdbm.good_t_step, lmdbm.good_t_step, lmdbm.t_step),
    types=gen.one_of(lmdbm.types, lmdbm.types, gen.any_type),
    st_=gen.one_of(lmdbm.source_ts, lmdbm.source_ts, gen.timestamp),
    payload=gen.one_of(lmdbm.payload, gen.payload))


def strategy():
    identifiers = gen.weighted(
        (4, st.none()), (6, st.just('x')),
        (3, st.sampled_from(['y', 'X', 'xx', '', 'ž😀', 'ž'])))
    return lmdbm.history(
        gen.one_of(lmdbm.reg_op(_spec), lmdbm.reg_op(_spec), lmdbm.flush_op,
                  lmdbm.reopen_op, lmdbm.reopen_op,
                  st.tuples(st.just('copy'), st.integers(0, 3))),
        max_ops=12, max_confs=4, conditions=lmdbm.simple_conditions,
        identifiers=identifiers)


def run(case, ctx):
    confs = case['confs']
    state = {'identifier': None}

    async def open_(d, i):
        """Returns false if refused"""
        identifier = confs[i % len(confs)]['identifier']
        refused = (identifier is not None and
                   state['identifier'] is not None and
                   identifier != state['identifier'])
        environments = len(patches.open_envs)
        kind, result = await sim.outcome(d.open(i))
        if refused:
            check(kind == 'error',
                  'database of %r opened with identifier %r',
                  state['identifier'], identifier)
            d.backend = None
            check(len(patches.open_envs) == environments,
                  'database file left open by refused opening')
            ctx.label('opening refused')
            return False
        if kind == 'error':
            raise result
        if identifier is not None:
            state['identifier'] = identifier
        return True

    async def main(loop):
        async with lmdbm.driver(case['pool'], confs, ctx.tmp / 'db') as d:
            await open_(d, 0)
            current = 0
            reopened = changed = 0
            for op in case['ops']:
                if op[0] == 'reopen':
                    await d.close()
                    if await open_(d, op[1]):
                        reopened += bool(d.events)
                        changed += (bool(d.events) and
                                    op[1] % len(confs) != current)
                        current = op[1] % len(confs)
                    else:
                        check(await open_(d, current), 'reopening refused')

                elif op[0] == 'copy':
                    path = ctx.tmp / 'copy'
                    shutil.copy(ctx.tmp / 'db', path)
                    async with lmdbm.driver(case['pool'], confs, path) as d2:
                        d2.model.disk = d.model.disk.copy()
                        d2.events = d.events
                        saved = dict(state)
                        if await open_(d2, op[1]):
                            await lmdbm.check_everything(d2)
                        state.update(saved)
                    path.unlink()
                    (ctx.tmp / 'copy-lock').unlink(missing_ok=True)

                else:
                    await lmdbm.play(d, [op], ctx)

                await lmdbm.check_everything(d)

            ctx.label('reopened', reopened)
            ctx.label('reopened with other configuration', changed)
            ctx.nontrivial = reopened > 0 and bool(d.model.mem.all_ids())

    sim.run(main, case['sim'])


def many_strategy():
    count = st.sampled_from([1, 2, 100, 255, 256, 257, 300])

    @st.composite
    def s(draw):
        parts = draw(count)
        confs = [{'order': draw(st.sampled_from(['same', 'reverse', 'rotate',
                                                 'half'])),
                  'n': draw(st.integers(0, 300))}
                 for _ in range(draw(st.integers(1, 3)))]
        return {
            'parts': parts,
            'types': draw(st.sampled_from([1, 2, 3, 255])),
            'source': draw(st.booleans()),
            # one type is stored in all partitions
            'all': draw(st.booleans()),
            'runs': [{**conf,
                      # registered types: first, step, number
                      'reg': [[draw(st.integers(0, 600)),
                               draw(st.sampled_from([1, 1, 7, 31])),
                               draw(st.sampled_from([0, 1, 10, 300, 1100,
                                                     2100]))]
                              for _ in range(draw(st.integers(0, 2)))],
                      'flush': draw(st.booleans())} for conf in confs]}

    return s()


def many_run(case, ctx):
    """Partition `i` holds types `(i, *)`, latest holds all types"""
    count = case['parts']
    types = [(str(i), str(j)) for j in range(case['types'])
             for i in range(count)]
    if case['all']:
        types[7:7] = [('all', )]
    latest = {}
    stored = {i: [] for i in range(count)}
    last = [common.EventId(1, 0, 0)]

    def partitions(run):
        result = list(range(count))
        n = run['n'] % count
        if run['order'] == 'reverse':
            result.reverse()
        elif run['order'] == 'rotate':
            result = [*result[n:], *result[:n]]
        elif run['order'] == 'half':
            result = result[::2]
        return result

    async def main(loop):
        for session, run in enumerate([*case['runs'], case['runs'][0]], 1):
            parts = partitions(run)
            active = set(parts)
            backend = await lmdbm.lmdb_info.create({
                'db_path': str(ctx.tmp / 'db'), 'identifier': None,
                'flush_period': lmdbm.NO_PERIOD,
                'cleanup_period': lmdbm.NO_PERIOD, 'conditions': [],
                'latest': {'subscriptions': [['*']]},
                'timeseries': [
                    {'order_by': ('SOURCE_TIMESTAMP' if case['source']
                                  else 'TIMESTAMP'),
                     'subscriptions': [[str(i), '*'],
                                       *([['all']] if case['all'] else [])]}
                    for i in parts]},
                None, None)
            last_id = await backend.get_last_event_id(1)
            check(last_id == last[0], 'last event id %r, expected %s',
                  last_id, last[0])
            instance = 0
            for first, step, number in run['reg']:
                events = []
                for k in range(number):
                    instance += 1
                    event_type = types[(first + k * step) % len(types)]
                    t = common.Timestamp(lmdbm.BASE_S + session, instance)
                    events.append(common.Event(
                        common.EventId(1, session, instance), event_type, t,
                        t, common.EventPayloadJson(k)))
                await backend.register(events)
                for event in events:
                    latest[event.type] = event
                    for part in (active if event.type == ('all', )
                                 else active & {int(event.type[0])}):
                        stored[part].append(event)
                if events:
                    last[0] = events[-1].id
                if run['flush']:
                    await sim.within(1000, backend.flush(), 'flush')
            result, more = gen.result_of(await backend.query(
                common.QueryLatestParams(None)))
            check(not more and len(result) == len(latest) and all(
                gen.same(latest[i.type], i) for i in result),
                'latest events of %s types, expected %s', len(result),
                len(latest))
            total = 0
            for part in [*parts, *([None] if case['all'] else [])]:
                # partition which is first in configuration is queried
                expected = [
                    i for i in stored[parts[0] if part is None else part]
                    if (i.type == ('all', )) == (part is None)]
                result, more = gen.result_of(await backend.query(
                    common.QueryTimeseriesParams(
                        event_types=[('all', ) if part is None
                                     else (str(part), '*')],
                        order=common.Order.ASCENDING,
                        order_by=(common.OrderBy.SOURCE_TIMESTAMP
                                  if case['source']
                                  else common.OrderBy.TIMESTAMP))))
                check(len(result) == min(len(expected), 4096) and
                      more == (len(expected) > 4096) and
                      all(gen.same(i, j) for i, j in zip(result, expected)),
                      'partition %s of %s: %s events, expected %s', part,
                      count, len(result), len(expected))
                total += len(result)
            ctx.label('stored', total)
            await sim.within(1000, backend.flush(), 'flush')
            ids = []
            more = True
            while more:
                result, more = gen.result_of(await backend.query(
                    common.QueryServerParams(
                        1, True, None, ids[-1] if ids else None)))
                ids.extend(i.id for i in result)
            visible = {i.id for events in [*stored.values(), latest.values()]
                       for i in events}
            check(ids == sorted(visible), 'server query returned %s events, '
                  'expected %s', len(ids), len(visible))
            await sim.within(1000, backend.async_close(), 'close')
        ctx.nontrivial = count > 254 and total > 254

    sim.run(main, None)


def large_strategy():
    return st.fixed_dictionaries({
        'batches': st.lists(st.sampled_from(
            [[1, 20_000_000], [40, 1_000_000], [40, 999_999], [500, 50_000],
             [3, 5_000_000], [1, 70_000_000]]), min_size=1, max_size=3),
        'flush': st.booleans(), 'latest': st.booleans()})


def large_run(case, ctx):
    conf = {'db_path': str(ctx.tmp / 'db'), 'identifier': None,
            'flush_period': lmdbm.NO_PERIOD,
            'cleanup_period': lmdbm.NO_PERIOD, 'conditions': [],
            'latest': {'subscriptions': [['*']] if case['latest'] else []},
            'timeseries': [{'order_by': 'TIMESTAMP',
                            'subscriptions': [['*']]}]}

    async def main(loop):
        backend = await lmdbm.lmdb_info.create(conf, None, None)
        events = []
        for count, size in case['batches']:
            batch = []
            for _ in range(count):
                n = len(events) + len(batch) + 1
                batch.append(common.Event(
                    common.EventId(1, 1, n), ('a', str(n % 3)),
                    common.Timestamp(lmdbm.BASE_S, n), None,
                    common.EventPayloadBinary(str(n), bytes([n & 0xff]) * size)
                    if n % 2 else common.EventPayloadJson(chr(97 + n % 26) *
                                                          size)))
            await backend.register(batch)
            if case['flush']:
                await sim.within(1000, backend.flush(), 'flush')
            events.extend(batch)
        for _ in range(2):
            await sim.within(1000, backend.async_close(), 'close')
            backend = await lmdbm.lmdb_info.create(conf, None, None)
            result, more = gen.result_of(await backend.query(
                common.QueryTimeseriesParams(order=common.Order.ASCENDING)))
            check(not more and [i.id for i in result] ==
                  [i.id for i in events] and all(
                      i.payload == j.payload
                      for i, j in zip(result, events)),
                  'time series has %s events, expected %s', len(result),
                  len(events))
            last = {i.type: i for i in events} if case['latest'] else {}
            result, _ = gen.result_of(await backend.query(
                common.QueryLatestParams()))
            check({i.type: i for i in result} == last, 'latest events')
        await sim.within(1000, backend.async_close(), 'close')
        ctx.nontrivial = True

    sim.run(main, None)


SUBS = [
    Sub('large', large_strategy, large_run, 16, 160,
        'databases of 15 to 210 MB'),
    Sub('many', many_strategy, many_run, 160, 4000,
        'more than 254 partitions with events'),
    Sub('history', strategy, run, 2000, 50000,
        'histories in which a database with stored events is reopened')]
