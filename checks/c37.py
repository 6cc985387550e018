"""LMDB database file format"""
TECHNIQUE = ('stateful model-based and differential property testing of the '
             'LMDB backend against an independent reader and writer of its '
             'database files')
NOTE = ('Independent reader and writer (vlib/dbformat.py) follow format of '
        'version 0.9 at the pinned commit, events are encoded by the pinned '
        'message schema (vlib/data). Retention is not part of the histories '
        '(C14).')

import shutil

from hypothesis import strategies as st

from vlib import dbformat, gen, lmdbm, patches, sim
from vlib.core import Sub, check

from hat.event import common

_spec = lmdbm.event_spec(
    id_step=gen.one_of(lmdbm.good_id_step, lmdbm.good_id_step, lmdbm.id_step),
    t_step=gen.one_of(lmdbm.good_t_step, lmdbm.good_t_step, lmdbm.t_step),
    types=gen.one_of(lmdbm.types, lmdbm.types, gen.any_type),
    st_=gen.one_of(lmdbm.source_ts, lmdbm.source_ts, gen.timestamp),
    payload=gen.one_of(lmdbm.payload, gen.payload))

_style = st.integers(0, 2000)
_version = st.sampled_from(['0.8', '0.10', '0.9.1', '1.0', '', '0.90', 0.9,
                            None, ['0.9']])


def strategy():
    return lmdbm.history(
        gen.one_of(lmdbm.reg_op(_spec), lmdbm.reg_op(_spec), lmdbm.flush_op,
                  lmdbm.reopen_op,
                  st.tuples(st.just('rewrite'), st.integers(0, 3), _style),
                  st.tuples(st.just('rewrite'), st.integers(0, 3), _style),
                  st.tuples(st.just('foreign'), _style, _version)),
        max_ops=10, max_confs=4, conditions=lmdbm.simple_conditions,
        identifiers=gen.weighted((4, st.none()), (6, st.just('x')),
                                 (3, st.just('ž😀'))))


def _identifiers(confs):
    # configurations differing in identifier are not relevant here
    used = [i['identifier'] for i in confs if i['identifier'] is not None]
    return [{**i, 'identifier': i['identifier'] and used[0]} for i in confs]


def verify(d, path, identifier):
    """File contains exactly what the model has on disk"""
    content = dbformat.Content(path)
    store = d.model.disk
    expected = {0: dbformat.VERSION}
    if identifier is not None:
        expected[1] = identifier
    check(content.settings == expected, 'settings %r, expected %r',
          content.settings, expected)
    check(content.last_id == {
              k: common.EventId(k, *v) for k, v in store.last_id.items()},
          'last event ids %r, expected %r', content.last_id, store.last_id)
    check(content.last_ts == store.last_ts,
          'last timestamps %r, expected %r', content.last_ts, store.last_ts)

    latest = {}
    for ref, event in content.latest.items():
        check(content.types.get(ref) == event.type,
              'type %r of latest event %r', content.types.get(ref), event)
        check(event.type not in latest, 'two latest events of %r', event.type)
        latest[event.type] = event
    check(len(set(content.types.values())) == len(content.types),
          'event type with more references: %r', content.types)
    check(gen.same(latest, store.latest), 'latest %r, expected %r', latest,
          store.latest)

    parts = {}
    ids = {}
    for i, part in enumerate(d.pool):
        parts[('sourceTimestamp' if part['by_source'] else 'timestamp',
               dbformat.canonical(part['subscriptions']))] = i
    for part_id, data in content.parts.items():
        key = (data.get('order'),
               tuple(tuple(i) for i in data.get('subscriptions', [])))
        check(key in parts, 'unknown partition %r', data)
        check(parts[key] not in ids.values(), 'two partitions %r', data)
        ids[part_id] = parts[key]
    check(content.series.keys() <= ids.keys(),
          'events of partitions %r, partitions are %r', content.series.keys(),
          ids)
    series = {ids[k]: v for k, v in content.series.items()}
    expected = {k: v for k, v in store.parts.items() if v}
    check(gen.same(series, expected), 'timeseries %r, expected %r', series,
          expected)
    counts = {ids.get(k): v for k, v in content.counts.items() if v}
    check(counts == {k: len(v) for k, v in expected.items()},
          'counts of events %r, expected %r', counts,
          {k: len(v) for k, v in expected.items()})

    found = {}
    for event_id, refs in content.refs.items():
        for ref in refs:
            if isinstance(ref, int):
                event = content.latest.get(ref)
                # latest event may be replaced while it is not visible
                if event is not None and event.id != event_id:
                    continue
            else:
                event = content.series.get(ref[0], {}).get(ref[1])
            check(event is not None and event.id == event_id,
                  'reference %r of %r to %r', ref, event_id, event)
            found[event_id] = found.get(event_id, 0) + 1
    expected = {}
    for items in (store.latest, *store.parts.values()):
        for event in items.values():
            expected[event.id] = expected.get(event.id, 0) + 1
    check(found == expected, 'numbers of references %r, expected %r', found,
          expected)


def run(case, ctx):
    confs = _identifiers(case['confs'])
    path = ctx.tmp / 'db'
    state = {'identifier': None}

    async def open_(d, i):
        await d.open(i)
        identifier = confs[i % len(confs)]['identifier']
        if identifier is not None:
            state['identifier'] = identifier

    def remove(x):
        x.unlink()
        x.with_name(f'{x.name}-lock').unlink(missing_ok=True)

    async def main(loop):
        async with lmdbm.driver(case['pool'], confs, path) as d:
            await open_(d, 0)
            rewritten = foreign = 0
            for op in case['ops']:
                if op[0] in ('reopen', 'rewrite'):
                    await d.close()
                    verify(d, path, state['identifier'])
                    if op[0] == 'rewrite':
                        remove(path)
                        dbformat.write(path, d.pool, d.model.disk,
                                       state['identifier'], op[2])
                        rewritten += bool(d.model.disk.all_ids())
                        verify(d, path, state['identifier'])
                    await open_(d, op[1])

                elif op[0] == 'foreign':
                    other = ctx.tmp / 'other'
                    dbformat.write(other, d.pool, d.model.disk,
                                   state['identifier'], op[1], op[2])
                    before = dbformat.dump(other)
                    environments = len(patches.open_envs)
                    d2 = lmdbm.Driver(case['pool'], confs, other)
                    kind, result = await sim.outcome(d2.open(0))
                    if op[2] is None:
                        # file created by interrupted first opening
                        if kind == 'error':
                            raise result
                        await d2.close()
                    else:
                        check(kind == 'error',
                              'database of version %r opened', op[2])
                        check(len(patches.open_envs) == environments,
                              'database file left open by refused opening')
                        check(dbformat.dump(other) == before,
                              'database of version %r changed', op[2])
                    remove(other)
                    foreign += 1

                else:
                    await lmdbm.play(d, [op], ctx)
                    if op[0] == 'flush':
                        copy = ctx.tmp / 'copy'
                        shutil.copy(path, copy)
                        verify(d, copy, state['identifier'])
                        copy.unlink()

                await lmdbm.check_everything(d)

            await d.close()
            verify(d, path, state['identifier'])
            ctx.label('file of independent writer opened', rewritten)
            ctx.label('file of other version refused', foreign)
            ctx.nontrivial = bool(d.model.disk.all_ids())

    sim.run(main, case['sim'])


SUBS = [Sub('format', strategy, run, 1500, 40000,
            'file contains events')]
