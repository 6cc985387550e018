"""LMDB callbacks and overlapping calls"""
TECHNIQUE = ('stateful property testing of the real LMDB backend with '
             'generated schedules of overlapping calls (virtual time, '
             'preempted database jobs)')
NOTE = ('Schedules: delays of database jobs, preemption of the job at '
        'generated database operations, delays in callbacks, cancellation '
        'of callers, closing at any point. Durability at the time of a '
        'callback is decided by opening a copy of the database file.')

import asyncio

from hypothesis import strategies as st

from vlib import gen, lmdbm, sim
from vlib.core import Sub, check

from hat.event import common

try:
    import hat.event.backends.lmdb.backend as lmdb_backend
except ImportError:
    lmdb_backend = None

SERVER = lmdbm.SERVERS[0]

_delay = st.sampled_from([0, 0, 0, -1, -2, -5, 1, 3, 10])

_op = gen.one_of(
    st.tuples(st.just('reg'), st.integers(0, 4)),
    st.tuples(st.just('reg'), st.integers(0, 4)),
    st.tuples(st.just('reg'), st.integers(1, 4)),
    st.just(['flush']), st.just(['flush']),
    st.tuples(st.just('query'),
              st.sampled_from(['ts', 'ts', 'latest', 'server', 'persisted',
                               'last'])),
    st.tuples(st.just('query'),
              st.sampled_from(['ts', 'ts', 'latest', 'server', 'persisted',
                               'last'])),
    st.tuples(st.just('cancel'), st.integers(0, 3)))


def strategy():
    @st.composite
    def s(draw):
        step = st.tuples(_op, st.booleans(), _delay)
        ops = draw(gen.one_of(st.lists(step, max_size=12),
                             st.lists(step, min_size=8, max_size=24)))
        after = []
        if draw(st.booleans()):
            after = draw(st.lists(step, max_size=5))
        return {'ops': ops, 'after_close': after,
                'cb': draw(st.sampled_from(
                    [None, [0], [5], [0, 5], [-1], [-3, 2]])),
                'cb_query': draw(st.booleans()),
                'by_source': draw(st.booleans()),
                'flush_period': draw(st.sampled_from(
                    [0.004, 0.02, 1, 10**6])),
                'cleanup_period': draw(st.sampled_from([0.01, 10**6])),
                # registered events which cause writing at once
                'forced': draw(gen.one_of(st.none(), st.integers(0, 5))),
                'sim': {'exec_start': draw(st.lists(st.sampled_from(
                            [0, 0, 1, 5, -2]), max_size=4)),
                        'exec_done': draw(st.lists(st.sampled_from(
                            [0, 0, 1, 5, -2]), max_size=4)),
                        'preempt': draw(gen.one_of(
                            st.none(), st.none(),
                            st.lists(st.integers(1, 12), min_size=1,
                                     max_size=3)))}}

    return s()


class _State:

    def __init__(self, case, path):
        self.case = case
        self.path = path
        self.events = []
        # events known to be (possibly) registered at given time
        self.batches = []
        self.reg_started = []
        self.reg_done = []
        self.flush_started = []
        self.flush_done = []
        self.closing = False
        self.closed = False
        self.snapshots = {}
        self.cyc = sim.Cyc(case['cb'] or [0])
        self.count = 0
        self.overlap = 0

    async def pause(self, loop):
        ms = self.cyc.next()
        future = loop.create_future()
        loop.delay(ms, lambda: future.done() or future.set_result(None))
        await future

    def callbacks(self, loop):
        def check_order(name, items, events):
            events = list(events)
            n = len(items)
            check(n < len(self.batches), '%s callback called with %r, all '
                  'registered batches already reported', name, events)
            check(gen.same(events, self.batches[n]),
                  '%s callback called with %r, expected %r', name, events,
                  self.batches[n])
            items.append(events)

        def failing(fn):
            # exceptions inside of callback could be suppressed
            def wrapper(*args):
                try:
                    fn(*args)
                except Exception as e:
                    self.failure = self.failure or e
                    raise
            return wrapper

        self.failure = None
        check_order = failing(check_order)

        def registered(events):
            check_order('registered', self.reg_started, events)

        def flushed(events):
            check_order('flushed', self.flush_started, events)
            n = len(self.flush_started)
            if len(self.snapshots) < 3 or n % 5 == 0:
                self.snapshots[n] = self.path.read_bytes()

        def sync_registered(events):
            registered(events)
            self.reg_done.append(None)

        def sync_flushed(events):
            flushed(events)
            self.flush_done.append(None)

        async def check_stored(events, persisted):
            # reported events can be queried from this moment
            ids = {i.id for i in events}
            if not ids:
                return
            kind, result = await sim.outcome(self.backend.query(
                common.QueryServerParams(SERVER, persisted=persisted)))
            if kind == 'error':
                if self.closing:
                    return
                raise result
            missing = ids - {i.id for i in gen.result_of(result)[0]}
            if missing:
                try:
                    check(False, 'events %r reported as %s are not in '
                          'answer of query', missing,
                          'flushed' if persisted else 'registered')
                except Exception as e:
                    self.failure = self.failure or e
                    raise

        async def async_registered(events):
            registered(events)
            if self.case['cb_query']:
                await check_stored([*events], False)
            await self.pause(loop)
            self.reg_done.append(None)

        async def async_flushed(events):
            flushed(events)
            if self.case['cb_query']:
                await check_stored([*events], True)
            await self.pause(loop)
            self.flush_done.append(None)

        if self.case['cb'] is None:
            return sync_registered, sync_flushed
        return async_registered, async_flushed

    def new_batch(self, count):
        batch = []
        for _ in range(count):
            i = len(self.events) + 1
            event = common.Event(
                id=common.EventId(SERVER, (i + 2) // 3, (i - 1) % 3 + 1),
                type=('a', 'bc'[i % 2]),
                timestamp=common.Timestamp(lmdbm.BASE_S + i // 2, i % 2),
                source_timestamp=common.Timestamp(i, 0), payload=None)
            self.events.append(event)
            batch.append(event)
        return batch


async def _call(s, backend, op):
    """Single call of backend"""
    was_closing = s.closing
    lo = sum(map(len, s.batches))
    flushed_lo = sum(map(len, s.flush_started[:len(s.flush_done)]))
    batches = len(s.batches)

    if op[0] == 'reg':
        if was_closing:
            batch = [common.Event(
                common.EventId(SERVER, 10**6, 1), ('a', 'b'),
                common.Timestamp(lmdbm.BASE_S + 10**6, 0), None, None)]
        else:
            batch = s.new_batch(op[1])
            s.batches.append(batch)
        n = len(s.batches)

    s.count += 1
    if s.count > 1:
        s.overlap += 1
    try:
        if op[0] == 'reg':
            kind, result = await sim.outcome(backend.register(
                gen.collection(batch, s.count)))
        elif op[0] == 'flush':
            kind, result = await sim.outcome(backend.flush())
        elif op[1] == 'ts':
            kind, result = await sim.outcome(backend.query(
                common.QueryTimeseriesParams(
                    order=common.Order.ASCENDING,
                    order_by=(common.OrderBy.SOURCE_TIMESTAMP
                              if s.case['by_source']
                              else common.OrderBy.TIMESTAMP))))
        elif op[1] == 'latest':
            kind, result = await sim.outcome(backend.query(
                common.QueryLatestParams()))
        elif op[1] in ('server', 'persisted'):
            kind, result = await sim.outcome(backend.query(
                common.QueryServerParams(
                    server_id=SERVER, persisted=op[1] == 'persisted')))
        else:
            kind, result = await sim.outcome(
                backend.get_last_event_id(SERVER))
    finally:
        s.count -= 1

    what = ' '.join(map(str, op))
    if was_closing:
        check(kind == 'error' and isinstance(
            result, common.BackendClosedError),
            '%s on closing backend: %s %r', what, kind, result)
        return
    if kind == 'error':
        if s.closing:
            return
        raise result

    hi = sum(map(len, s.batches))
    boundaries = {0}
    for i in s.batches:
        boundaries.add(max(boundaries) + len(i))

    if op[0] == 'reg':
        check(len(s.reg_done) >= 1 and len(s.reg_started) >= n,
              'register returned before registered callback')
        if s.case['cb'] is None:
            check(len(s.reg_done) >= n, 'register returned before callback')
        check(result is not None and gen.same(list(result), batch),
              'register returned %r, expected %r', result, batch)

    elif op[0] == 'flush':
        check(len(s.flush_done) >= batches,
              'flush returned with %s of %s batches reported as flushed',
              len(s.flush_done), batches)

    elif op[1] == 'last':
        n = 0 if result[1:] == (0, 0) else (
            [i.id for i in s.events].index(result) + 1)
        check(lo <= n <= hi and n in boundaries, 'last event id %r', result)

    else:
        events, more = gen.result_of(result)
        check(not more, 'more_follows')
        if op[1] == 'persisted':
            lo = flushed_lo
        if op[1] == 'latest':
            ok = any(
                gen.same({i.type: i for i in events},
                         {i.type: i for i in s.events[:n]}) and
                len(events) == len({i.type for i in s.events[:n]})
                for n in boundaries if lo <= n <= hi)
        else:
            n = len(events)
            ok = (lo <= n <= hi and n in boundaries and
                  gen.same(events, s.events[:n]))
        check(ok, '%s query returned %r, expected between %s and %s of '
              'registered events (batches %r)', op[1],
              [tuple(i.id) for i in events], lo, hi,
              [len(i) for i in s.batches])


def run(case, ctx):
    path = ctx.tmp / 'db'

    async def main(loop):
        s = _State(case, path)
        pool = [{'by_source': case['by_source'], 'subscriptions': [['*']]}]
        conf = {'latest': [['*']], 'parts': [[0, None]], 'conditions': [],
                'identifier': None}
        backend = await lmdbm.lmdb_info.create(
            lmdbm.backend_conf(pool, conf, path,
                               flush_period=case['flush_period'],
                               cleanup_period=case['cleanup_period']),
            *s.callbacks(loop))
        s.backend = backend
        tasks = []

        async def play(ops):
            for op, wait, delay in ops:
                if op[0] == 'cancel':
                    pending = [i for i in tasks if not i.done()]
                    if pending:
                        pending[op[1] % len(pending)].cancel()
                        ctx.label('cancelled call')
                else:
                    task = asyncio.ensure_future(_call(s, backend, op))
                    tasks.append(task)
                    if wait:
                        await asyncio.wait([task], timeout=1000)
                        check(task.done(), 'hang: %s', op)
                    if task.done() and not task.cancelled():
                        task.result()
                future = loop.create_future()
                loop.delay(delay, future.set_result, None)
                await future

        await play(case['ops'])
        s.closing = True
        backend.close()
        await play(case['after_close'])
        await sim.within(1000, backend.async_close(), 'close')
        s.closed = True
        done, pending = (await asyncio.wait(tasks, timeout=1000)
                         if tasks else (set(), set()))
        check(not pending, 'hang: %s calls not finished after close',
              len(pending))
        for i in done:
            if not i.cancelled():
                i.result()
        if s.failure:
            raise s.failure
        check(len(s.reg_started) == len(s.batches) == len(s.flush_started),
              '%s batches registered, %s reported as registered, %s as '
              'flushed', len(s.batches), len(s.reg_started),
              len(s.flush_started))
        check(len(s.flush_done) == len(s.batches),
              'close finished before flushed callbacks')
        for fn in (backend.flush, lambda: backend.register([]),
                   lambda: backend.get_last_event_id(1),
                   lambda: backend.query(common.QueryLatestParams())):
            kind, result = await sim.outcome(sim.within(
                1000, fn(), 'call of closed backend'))
            check(kind == 'error' and isinstance(
                result, common.BackendClosedError),
                'call on closed backend: %s %r', kind, result)

        # durability at the time of callback
        total = len(s.events)
        for n, data in [*s.snapshots.items(),
                        (len(s.batches), path.read_bytes())]:
            copy = ctx.tmp / 'copy'
            copy.write_bytes(data)
            other = await lmdbm.lmdb_info.create(
                lmdbm.backend_conf(pool, conf, copy), None, None)
            for params in (common.QueryTimeseriesParams(
                    order=common.Order.ASCENDING,
                    order_by=(common.OrderBy.SOURCE_TIMESTAMP
                              if case['by_source']
                              else common.OrderBy.TIMESTAMP)),
                    common.QueryServerParams(server_id=SERVER,
                                             persisted=True)):
                events, _ = gen.result_of(await other.query(params))
                count = sum(map(len, s.batches[:n]))
                check(count <= len(events) <= total and
                      gen.same(events, s.events[:len(events)]),
                      'on disk after callback of batch %s: %r', n,
                      [tuple(i.id) for i in events])
            await other.async_close()
            copy.unlink()
            copy.with_name('copy-lock').unlink(missing_ok=True)

        ctx.label('writing forced by number of events',
                  case.get('forced') is not None)
        ctx.label('overlapping calls', s.overlap)
        ctx.label('batches', len(s.batches))
        ctx.nontrivial = s.overlap > 0 and len(s.batches) > 1

    # limit is not a part of configuration - with the original value none of
    # cases would reach it
    forced = case.get('forced')
    original = getattr(lmdb_backend, 'max_registered_count', None)
    if forced is not None and isinstance(original, int):
        lmdb_backend.max_registered_count = forced
    try:
        sim.run(main, case['sim'])
    finally:
        if original is not None:
            lmdb_backend.max_registered_count = original


SUBS = [
    Sub('overlap', strategy, run, 4000, 80000,
        'schedules with overlapping calls and at least two batches')]
