"""LMDB crashes and failed writes"""
TECHNIQUE = ('stateful model-based property testing of the real LMDB backend '
             'with crash points and failing write transactions')
NOTE = ('Crash of the process is modelled by copying the database file at '
        'each start, middle and end of a write transaction and opening the '
        'copy; loss of power (reordered writes of the operating system) is '
        'not modelled. Failed write is modelled by an exception raised at '
        'generated begin, put or commit of a write transaction. Partitions '
        'are observed one by one.')

import asyncio

import lmdb
from hypothesis import strategies as st

from vlib import gen, lmdbm, patches, sim
from vlib.core import Sub, Violation, check

from hat.event import common

PERIOD = 10
MAX_SNAPSHOTS = 30

_limit = gen.one_of(
    st.none(), st.none(), st.none(),
    st.just({'max_entries': 2}), st.just({'duration': 50}),
    st.just({'max_entries': 0, 'min_entries': 1}))

_spec = lmdbm.event_spec(
    id_step=gen.one_of(*([lmdbm.good_id_step] * 4), lmdbm.id_step),
    t_step=gen.one_of(*([lmdbm.good_t_step] * 6), lmdbm.t_step),
    payload=gen.one_of(st.none(), st.just({'json': 1}),
                      st.just({'bin': ['', '00' * 300]})))

_sim_conf = st.fixed_dictionaries({
    'exec_start': st.lists(st.sampled_from([0, 0, 1, 20, -2]), max_size=3),
    'exec_done': st.lists(st.sampled_from([0, 0, 1, 20, -2]), max_size=3)})

_wait = st.tuples(st.just('wait'), st.sampled_from([0, 1, 5, 20, 2000,
                                                    11000]))
_flush_bg = st.just(['flush_bg'])


def _case(fail):
    ops = gen.one_of(
        lmdbm.reg_op(_spec, 4), lmdbm.reg_op(_spec, 4),
        lmdbm.reg_op(_spec, 4), lmdbm.flush_op, _flush_bg, _flush_bg, _wait,
        _wait, *([] if fail else [lmdbm.reopen_op]))

    @st.composite
    def s(draw):
        case = draw(lmdbm.history(ops, max_ops=10, max_confs=2,
                                  limits=_limit,
                                  conditions=lmdbm.simple_conditions))
        case['sim'] = draw(_sim_conf)
        case['flush_period'] = draw(st.sampled_from([0.003, 1, 10, 10**7]))
        if fail:
            if draw(st.booleans()):
                # registration while flush is waiting or running
                case['ops'].extend([
                    draw(lmdbm.reg_op(_spec, 4)), ['flush_bg'],
                    ['wait', draw(st.sampled_from([0, 1, 5]))],
                    draw(lmdbm.reg_op(_spec, 4)), draw(_wait)])
                case['sim']['exec_start'] = draw(st.sampled_from(
                    [[20], [20, 0], [-3], [0, 20]]))
            case['fail'] = [draw(st.integers(0, 6)),
                            draw(st.sampled_from(['begin', 'put', 'commit',
                                                  'commit'])),
                            draw(st.integers(0, 12))]
        return case

    return s()


class _Txn:
    """Write transaction"""

    def __init__(self, txn, on_put, on_commit, after_commit):
        self._txn = txn
        self._on_put = on_put
        self._on_commit = on_commit
        self._after = after_commit

    def __enter__(self):
        self._txn.__enter__()
        return self

    def __exit__(self, exc_type, exc, tb):
        if exc_type is None:
            try:
                self._on_commit()
            except BaseException:
                self._txn.abort()
                raise
        result = self._txn.__exit__(exc_type, exc, tb)
        self._after()
        return result

    def commit(self):
        try:
            self._on_commit()
        except BaseException:
            self._txn.abort()
            raise
        self._txn.commit()
        self._after()

    def cursor(self, *args, **kwargs):
        return _Cursor(self._txn.cursor(*args, **kwargs), self._on_put)

    def put(self, *args, **kwargs):
        self._on_put()
        return self._txn.put(*args, **kwargs)

    def delete(self, *args, **kwargs):
        self._on_put()
        return self._txn.delete(*args, **kwargs)

    def __getattr__(self, name):
        return getattr(self._txn, name)


class _Cursor:

    def __init__(self, cursor, on_put):
        self._cursor = cursor
        self._on_put = on_put

    def __enter__(self):
        self._cursor.__enter__()
        return self

    def __exit__(self, *args):
        return self._cursor.__exit__(*args)

    def __iter__(self):
        return iter(self._cursor)

    def __getattr__(self, name):
        if name in ('put', 'delete', 'pop', 'putmulti', 'replace'):
            self._on_put()
        return getattr(self._cursor, name)


class _Monitor:
    """Takes snapshots of database file and fails transactions"""

    def __init__(self, path, fail):
        self.path = path
        self.fail = fail
        self.armed = False
        self.count = 0
        self.failed = False
        self.snapshots = {}
        self.durable = lambda: 0
        self.accepted = lambda: 0
        # what is left after loss of power: contents after the last
        # transaction which is written with guarantees (by flags of
        # environment)
        self.stable = b''
        self.committed_data = b''

    def install(self):
        patches.EnvHooks.begin = self.begin
        patches.EnvHooks.opened = self.step
        patches.EnvHooks.step = self.committed
        patches.EnvHooks.synced = self.synced
        patches.EnvHooks.closing = self.step

    def uninstall(self):
        for i in ('begin', 'opened', 'step', 'synced', 'closing'):
            setattr(patches.EnvHooks, i, None)

    def step(self, proxy=None):
        try:
            data = self.path.read_bytes()
        except FileNotFoundError:
            return
        for i in (data, self.stable):
            low, high = self.snapshots.get(i, (0, 10**9))
            self.snapshots[i] = (max(low, self.durable()),
                                 min(high, self.accepted()))

    def committed(self, proxy):
        data = self.path.read_bytes()
        flags = proxy.env.flags()
        if flags['sync'] and not (flags['writemap'] and flags['map_async']):
            # without synchronisation of meta page last transaction is lost
            self.stable = data if flags['metasync'] else self.committed_data
        self.committed_data = data
        self.step()

    def synced(self, proxy):
        self.stable = self.committed_data = self.path.read_bytes()
        self.step()

    def begin(self, proxy, write, buffers):
        if not write:
            return None
        self.step()
        index = self.count
        if self.armed:
            self.count += 1
        hit = self.armed and self.fail and self.fail[0] == index
        if hit and self.fail[1] == 'begin':
            self.failed = True
            raise lmdb.DiskError('injected')
        puts = [0]

        def on_put():
            puts[0] += 1
            if hit and self.fail[1] == 'put' and puts[0] > self.fail[2]:
                self.failed = True
                raise lmdb.MapFullError('injected')
            if puts[0] == 1:
                self.step()

        def on_commit():
            self.step()
            if hit and self.fail[1] == 'commit':
                self.failed = True
                raise lmdb.DiskError('injected')

        return _Txn(proxy.env.begin(write=True, buffers=buffers), on_put,
                    on_commit, lambda: self.committed(proxy))


async def _contents(pool, path):
    """Everything stored in a database: latest, partitions, last ids"""
    store = lmdbm.Store()
    for i in [None, *range(len(pool))]:
        part = pool[i] if i is not None else None
        conf = {'latest': [['*']] if part is None else [],
                'parts': [[0, None]] if part else [], 'conditions': [],
                'identifier': None}
        backend = await lmdbm.lmdb_info.create(
            lmdbm.backend_conf([part], conf, path), None, None)
        try:
            if part is None:
                result, _ = gen.result_of(await backend.query(
                    common.QueryLatestParams()))
                store.latest = {e.type: e for e in result}
                check(len(store.latest) == len(result),
                      'two latest events of same type')
                for server in lmdbm.SERVERS:
                    event_id = await backend.get_last_event_id(server)
                    check(event_id.server == server, 'invalid last event id')
                    if event_id[1:] != (0, 0):
                        store.last_id[server] = event_id[1:]
            else:
                result, more = gen.result_of(await backend.query(
                    common.QueryTimeseriesParams(
                        order=common.Order.ASCENDING,
                        order_by=(common.OrderBy.SOURCE_TIMESTAMP
                                  if part['by_source']
                                  else common.OrderBy.TIMESTAMP))))
                check(not more, 'unexpected more_follows')
                store.parts[i] = {
                    (lmdbm.ts_key(e.source_timestamp if part['by_source']
                                  else e.timestamp), e.id): e
                    for e in result}
        finally:
            await backend.async_close()
    return store


def _same_events(x, y):
    return x.keys() == y.keys() and all(gen.same(v, y[k])
                                        for k, v in x.items())


def _matches(store, expected, limited):
    """Is content equal to expected, up to removal by retention"""
    if store.last_id != expected.last_id:
        return False
    if not _same_events(store.latest, expected.latest):
        return False
    for i, part in store.parts.items():
        full = expected.parts.get(i, {})
        if i in limited:
            # what is removed is decided by C14
            full = {k: v for k, v in full.items() if k in part}
        if not _same_events(part, full):
            return False
    return True


async def _verify(d, path, low, high, stores, batches, limited, what, ctx,
                  retention):
    store = await _contents(d.pool, path)
    prefix = [k for k in range(len(stores))
              if _matches(store, stores[k], limited)]
    what = (f'{what}: last ids {store.last_id}, latest '
            f'{sorted((t, *e.id) for t, e in store.latest.items())}, '
            f'partitions ' + str({i: [tuple(k[1]) for k in sorted(part)]
                                  for i, part in store.parts.items()}))
    check(prefix, '%s: not a state after any batch', what)
    check(prefix[0] <= high and prefix[-1] >= low,
          '%s: state after batch %s, at least %s flushed, %s registered',
          what, prefix, low, high)

    # every query agrees, registration continues
    confs = [{**i, 'parts': [[j, None] for j, _ in i['parts']]}
             for i in d.confs]
    d2 = lmdbm.Driver(d.pool, confs, path)
    d2.model.disk = store
    d2.model.disk.last_ts = dict(stores[prefix[-1]].last_ts)
    d2.events = d.events
    try:
        for i in range(len(d.confs)):
            await d2.open(i)
            await lmdbm.check_everything(d2)
            await d2.close()
        k = prefix[-1]
        rest = [i for i in batches if i[1] >= k]
        if rest and len({i[0] for i in rest}) == 1 and not limited:
            await d2.open(rest[0][0])
            if len({i[0] for i in batches}) == 1:
                # accepted with other configuration if not stored
                await d2.register_events(
                    [e for i in batches if i[1] < k for e in i[2]][-3:])
            for _, _, events in rest:
                await d2.register_events(list(events))
            await d2.close()
            final = await _contents(d.pool, path)
            check(_matches(final, stores[-1], limited),
                  '%s: repeating registrations after batch %s gives '
                  'different content', what, k)
            ctx.label('continued registration')
    finally:
        if d2.backend:
            await d2.backend.async_close()
    if retention:
        await _check_retention(d.pool, path, what)
    return prefix[-1]


async def _check_retention(pool, path, what):
    """Retention works on the real number of entries"""
    before = await _contents(pool, path)
    parts = [[i, {'max_entries': max(len(before.parts[i]) - 1, 0)}]
             for i in range(len(pool))]
    conf = {'latest': [], 'parts': parts, 'conditions': [],
            'identifier': None}
    backend = await lmdbm.lmdb_info.create(
        lmdbm.backend_conf(pool, conf, path, cleanup_period=PERIOD), None,
        None)
    await asyncio.sleep(3 * PERIOD)
    await backend.async_close()
    after = await _contents(pool, path)
    for i, entries in before.parts.items():
        check(sorted(after.parts[i]) == sorted(entries)[1:],
              '%s: single oldest of %s entries should be removed from '
              'partition %s, %s left', what, len(entries), i,
              len(after.parts[i]))


def run(case, ctx):
    path = ctx.tmp / 'db'
    monitor = _Monitor(path, case.get('fail'))
    stores = [lmdbm.Store()]
    batches = []
    limited = {i for c in case['confs'] for i, limit in c['parts'] if limit}
    flushed = [0]
    state = {'failed_call': False}

    async def main(loop):
        d = lmdbm.Driver(case['pool'], case['confs'], path,
                         flush_period=case['flush_period'],
                         cleanup_period=PERIOD)
        monitor.durable = lambda: max(len(d.flushed), flushed[0])
        monitor.accepted = lambda: len(stores) - 1
        current = 0
        background = set()

        def guard(kind, result):
            if kind == 'error':
                if monitor.failed and isinstance(
                        result, (common.BackendClosedError, lmdb.Error)):
                    state['failed_call'] = True
                    return
                raise result

        async def flush():
            backend = d.backend
            n = len(stores) - 1
            guard(*await sim.outcome(sim.within(
                1000, backend.flush(), 'flush')))
            if not state['failed_call']:
                flushed[0] = max(flushed[0], n)

        monitor.install()
        try:
            await d.open(0)
            monitor.armed = True
            for op in case['ops']:
                if monitor.failed and not d.backend.is_open:
                    break
                if op[0] == 'reg':
                    # content of model is independent of success of backend
                    events = [d.stamper.event(i) for i in op[1]]
                    if not d.backend.is_open:
                        break
                    d.events.extend(events)
                    for i in events:
                        d.model.register(i)
                    batches.append((current, len(stores) - 1, events))
                    stores.append(d.model.mem.copy())
                    guard(*await sim.outcome(d.backend.register(events)))
                elif op[0] == 'flush':
                    await flush()
                elif op[0] == 'flush_bg':
                    background.add(asyncio.ensure_future(flush()))
                    await asyncio.sleep(0)
                elif op[0] == 'wait':
                    await asyncio.sleep(op[1] * sim.MS)
                elif op[0] == 'reopen':
                    for i in background:
                        await i
                    background.clear()
                    backend = d.backend
                    await sim.within(1000, backend.async_close(), 'close')
                    d.model.mem.parts = {
                        k: dict(v) for k, v in stores[-1].parts.items()}
                    d.model.flush()
                    flushed[0] = len(stores) - 1
                    current = op[1] % len(d.confs)
                    await d.open(current)
            for i in background:
                await i
            if d.backend:
                backend = d.backend
                guard(*await sim.outcome(sim.within(
                    1000, backend.async_close(), 'close')))
                if monitor.failed:
                    for kind, fn in (
                            ('flush', backend.flush),
                            ('register', lambda: backend.register([]))):
                        result = await sim.outcome(
                            sim.within(1000, fn(), kind))
                        check(result[0] == 'error', '%s after failed write '
                              'succeeded', kind)
                else:
                    flushed[0] = len(stores) - 1
                monitor.step()
        finally:
            monitor.uninstall()

        check(len(d.flushed) <= len(batches), 'too many flushed batches')

        items = list(monitor.snapshots.items())
        final = items[-1]
        step = max(1, -(-len(items) // MAX_SNAPSHOTS))
        copy = ctx.tmp / 'copy'
        states = set()
        for i, (data, (low, high)) in enumerate([*items[::step], final]):
            copy.write_bytes(data)
            try:
                states.add(await _verify(
                    d, copy, low, high, stores, batches, limited,
                    f'crash {i}/{len(items)}', ctx, bool(limited) or i % 3 == 0))
            finally:
                copy.unlink()
                copy.with_name('copy-lock').unlink(missing_ok=True)
        ctx.label('snapshots', len(items))
        ctx.label('distinct prefixes', len(states))
        if monitor.failed:
            ctx.label('failed transaction ' + case['fail'][1])
        n = len(stores) - 1
        ctx.nontrivial = (
            (monitor.failed and bool(stores[-1].all_ids())) if case.get(
                'fail') else any(0 < i for i in states) and len(states) > 1)
        if monitor.failed:
            low, high = monitor.snapshots[final[0]]
            ctx.label('batches lost by failure', n - max(states))

    try:
        sim.run(main, case['sim'])
    finally:
        monitor.uninstall()


SUBS = [
    Sub('crash', lambda: _case(False), run, 500, 12000,
        'histories with crash points in at least two different prefixes of '
        'registered batches'),
    Sub('failure', lambda: _case(True), run, 500, 12000,
        'histories in which a write transaction failed and events were '
        'registered')]

__all__ = ['Violation']
