"""Deterministic simulation of asyncio environment.

* virtual time: loop's clock advances only when nothing is ready
* executors: jobs run inline, in order, with generated start and completion
  delays; optionally a job is preempted at database operations
* network: in-memory TCP with generated latencies, chunking and faults

All schedules and faults are part of the (JSON) case, so each run is
reproducible.
"""
import asyncio
import collections
import itertools
import socket
import threading

from vlib import core, patches
from vlib.core import HarnessError, Violation, describe

from hat import aio

MS = 0.001
EPOCH = 1_000_000_000
MAX_TIME = 200_000
MAX_IDLE_STEPS = 200_000


class SimDeadlock(Exception):
    """Nothing can ever happen any more"""


class SimLimit(Exception):
    """Virtual time or step limit"""


class Cyc:
    """Cyclically consumed list"""

    def __init__(self, items, default=0):
        self._items = list(items) if items else [default]
        self._i = 0

    def next(self):
        v = self._items[self._i % len(self._items)]
        self._i += 1
        return v


_hashes = itertools.count(1)


def _resource_hash(self):
    # sets of resources get deterministic order
    try:
        return self.__dict__['_sim_hash']
    except KeyError:
        value = self.__dict__['_sim_hash'] = next(_hashes)
        return value


aio.Resource.__hash__ = _resource_hash


class SimTask(asyncio.Task):

    def __init__(self, *args, **kwargs):
        self._sim_hash = next(_hashes)
        super().__init__(*args, **kwargs)

    def __hash__(self):
        return self._sim_hash

    def __eq__(self, other):
        return self is other


class SimFuture(asyncio.Future):

    def __init__(self, *args, **kwargs):
        self._sim_hash = next(_hashes)
        super().__init__(*args, **kwargs)

    def __hash__(self):
        return self._sim_hash

    def __eq__(self, other):
        return self is other


class _Selector:

    def __init__(self, loop):
        self._loop = loop

    def select(self, timeout):
        if timeout is None:
            raise SimDeadlock()
        if timeout > 0:
            self._loop._now += timeout
            self._loop._idle_steps = 0
            if self._loop._now > self._loop._max_time:
                raise SimLimit('virtual time limit')
        return []

    def close(self):
        pass


class SimLoop(asyncio.BaseEventLoop):

    def __init__(self, conf=None, max_time=MAX_TIME):
        super().__init__()
        conf = conf or {}
        self._now = 0.0
        self._max_time = max_time
        self._idle_steps = 0
        self._clock_resolution = 1e-9
        self._selector = _Selector(self)
        self._exec_start = Cyc(conf.get('exec_start'))
        self._exec_done = Cyc(conf.get('exec_done'))
        self._preempt = (Cyc(conf['preempt']) if any(conf.get('preempt') or
                                                     []) else None)
        self._executors = {}
        self._executor_refs = []
        self._current_job = None
        self.net = Network(self, conf.get('net') or {})
        self.errors = []
        self.epoch = EPOCH
        self.set_task_factory(_task_factory)
        self.set_exception_handler(self._on_error)

    def _on_error(self, loop, context):
        # result in which nobody is interested any more
        if 'never retrieved' not in context['message']:
            self.errors.append(context)

    def time(self):
        return self._now

    def _run_once(self):
        self._idle_steps += 1
        if self._idle_steps > MAX_IDLE_STEPS:
            raise SimLimit('livelock: no progress of time')
        super()._run_once()

    def _process_events(self, event_list):
        pass

    def _write_to_self(self):
        pass

    def call_soon_threadsafe(self, callback, *args, context=None):
        return self.call_soon(callback, *args, context=context)

    def create_future(self):
        return SimFuture(loop=self)

    def close(self):
        super().close()

    def add_signal_handler(self, *args):
        pass

    def remove_signal_handler(self, *args):
        pass

    # executors

    def run_in_executor(self, executor, func, *args):
        if executor is not None and getattr(executor, '_shutdown', False):
            raise RuntimeError('cannot schedule new futures after shutdown')
        key = id(executor)
        if key not in self._executors:
            self._executors[key] = _Executor(self)
            self._executor_refs.append(executor)
        future = self.create_future()
        self._executors[key].add(future, func, args)
        return future

    def delay(self, ms, fn, *args):
        """Call after number of milliseconds or, if negative, iterations"""
        if ms > 0:
            return self.call_later(ms * MS, fn, *args)
        if ms == 0:
            return self.call_soon(fn, *args)
        return self.call_soon(self.delay, ms + 1, fn, *args)

    # network

    async def create_server(self, protocol_factory, host=None, port=None,
                            **kwargs):
        return self.net.listen(protocol_factory, host, port)

    async def create_connection(self, protocol_factory, host=None, port=None,
                                **kwargs):
        return await self.net.connect(protocol_factory, host, port)

    async def getaddrinfo(self, host, port, **kwargs):
        return [(socket.AF_INET, socket.SOCK_STREAM, 6, '', (host, port))]


def _task_factory(loop, coro, **kwargs):
    return SimTask(coro, loop=loop, **kwargs)


class _Executor:

    def __init__(self, loop):
        self._loop = loop
        self._queue = collections.deque()
        self._busy = False

    def add(self, future, func, args):
        self._queue.append((future, func, args))
        if not self._busy:
            self._busy = True
            self._schedule()

    def _schedule(self):
        self._loop.delay(self._loop._exec_start.next(), self._start)

    def _start(self):
        future, func, args = self._queue.popleft()
        if future.cancelled():
            self._next()
            return
        loop = self._loop
        if loop._preempt is None:
            result = _call(func, args)
            self._finish(future, result)
        else:
            _Job(self, future, func, args).resume()

    def _finish(self, future, result):
        self._loop.delay(self._loop._exec_done.next(), _deliver, future,
                         *result)
        self._next()

    def _next(self):
        if self._queue:
            self._schedule()
        else:
            self._busy = False


def _call(func, args):
    try:
        return func(*args), None
    except BaseException as e:
        return None, e


def _deliver(future, result, exc):
    if future.done():
        return
    if exc is None:
        future.set_result(result)
    elif isinstance(exc, StopIteration):
        future.set_exception(RuntimeError('StopIteration'))
    else:
        future.set_exception(exc)


class _Job:
    """Job running in thread, alternating with the loop at checkpoints"""

    def __init__(self, executor, future, func, args):
        self._executor = executor
        self._loop = executor._loop
        self._future = future
        self._func = func
        self._args = args
        self._to_job = threading.Semaphore(0)
        self._to_loop = threading.Semaphore(0)
        self._result = None
        self._left = self._loop._preempt.next()
        self._thread = threading.Thread(target=self._run, daemon=True)
        self._started = False

    def resume(self):
        self._loop._current_job = self
        if not self._started:
            self._started = True
            self._thread.start()
        else:
            self._to_job.release()
        self._to_loop.acquire()
        self._loop._current_job = None
        if self._result is not None:
            self._thread.join()
            self._executor._finish(self._future, self._result)
        else:
            self._loop.delay(self._loop._exec_done.next(), self.resume)

    def checkpoint(self):
        if threading.current_thread() is not self._thread:
            return
        if not self._left:
            return
        self._left -= 1
        if self._left:
            return
        self._left = self._loop._preempt.next()
        self._to_loop.release()
        self._to_job.acquire()

    def _run(self):
        self._result = _call(self._func, self._args)
        self._to_loop.release()


class _TxnProxy:
    """Transaction with checkpoint before each operation"""

    def __init__(self, txn, checkpoint):
        self._txn = txn
        self._checkpoint = checkpoint

    def cursor(self, *args, **kwargs):
        self._checkpoint()
        return _CursorProxy(self._txn.cursor(*args, **kwargs),
                            self._checkpoint)

    def __enter__(self):
        self._txn.__enter__()
        return self

    def __exit__(self, *args):
        self._checkpoint()
        return self._txn.__exit__(*args)

    def __getattr__(self, name):
        return getattr(self._txn, name)


class _CursorProxy:

    def __init__(self, cursor, checkpoint):
        self._cursor = cursor
        self._checkpoint = checkpoint

    def __enter__(self):
        self._cursor.__enter__()
        return self

    def __exit__(self, *args):
        return self._cursor.__exit__(*args)

    def __iter__(self):
        return iter(self._cursor)

    def __getattr__(self, name):
        if name in ('put', 'set_range', 'delete', 'pop', 'get'):
            self._checkpoint()
        return getattr(self._cursor, name)


def _begin_hook(loop, next_hook):
    """Environment hook preempting running job"""

    def checkpoint():
        job = loop._current_job
        if job:
            job.checkpoint()

    def begin(proxy, write, buffers):
        checkpoint()
        txn = next_hook(proxy, write, buffers) if next_hook else None
        if txn is None:
            txn = proxy.env.begin(write=write, buffers=buffers)
        return _TxnProxy(txn, checkpoint)

    return begin


# network

class Network:
    """In-memory network

    Configuration properties (all optional):
        latency - delays in ms of successive chunks
        chunk - sizes of successive chunks (0 - everything written)
        hwm - high water mark of write buffers

    """

    def __init__(self, loop, conf):
        self.loop = loop
        self._latency = conf.get('latency')
        self._chunk = conf.get('chunk')
        self._hwm = conf.get('hwm') or 64 * 1024
        self._servers = {}
        self._ports = itertools.count(40000)
        self.links = []
        self.on_link = None
        self.refuse = None  # callable(port) -> bool

    def _addr(self, host, port):
        return '127.0.0.1', port

    def listen(self, factory, host, port):
        if not port:
            port = next(self._ports)
        addr = self._addr(host, port)
        if addr in self._servers:
            raise OSError(98, 'address already in use')
        server = Server(self, factory, addr)
        self._servers[addr] = server
        return server

    def is_listening(self, port):
        return self._addr(None, port) in self._servers

    async def connect(self, factory, host, port):
        addr = self._addr(host, port)
        await asyncio.sleep((Cyc(self._latency).next()) * MS)
        if self.refuse and self.refuse(port):
            raise ConnectionRefusedError(111, 'connection refused')
        server = self._servers.get(addr)
        if server is None:
            raise ConnectionRefusedError(111, 'connection refused')
        link = Link(self, server, ('127.0.0.1', next(self._ports)), addr)
        self.links.append(link)
        protocol = factory()
        srv_protocol = server._factory()
        link.client.start(protocol)
        link.server.start(srv_protocol)
        server._attach(link.server)
        self.loop.call_soon(link.server.connection_made)
        waiter = self.loop.create_future()

        def made():
            link.client.connection_made()
            if not waiter.done():
                waiter.set_result(None)

        self.loop.call_soon(made)
        if self.on_link:
            self.on_link(link)
        try:
            await waiter
        except BaseException:
            link.client.close()
            raise
        return link.client, protocol


class _Socket:

    def __init__(self, addr):
        self._addr = addr

    def getsockname(self):
        return self._addr


class Server:

    def __init__(self, net, factory, addr):
        self._net = net
        self._factory = factory
        self._addr = addr
        self._active = set()
        self._closed = False
        self._waiters = []

    @property
    def sockets(self):
        return [] if self._closed else [_Socket(self._addr)]

    def is_serving(self):
        return not self._closed

    def close(self):
        if not self._closed:
            self._closed = True
            del self._net._servers[self._addr]
            self._check()

    async def wait_closed(self):
        if self._closed and not self._active:
            return
        future = self._net.loop.create_future()
        self._waiters.append(future)
        await future

    def _attach(self, transport):
        self._active.add(transport)

    def _detach(self, transport):
        self._active.discard(transport)
        self._check()

    def _check(self):
        if self._closed and not self._active:
            for i in self._waiters:
                if not i.done():
                    i.set_result(None)
            self._waiters = []


class Link:
    """Single connection"""

    def __init__(self, net, server, client_addr, server_addr):
        self.net = net
        self.client = Transport(self, client_addr, server_addr, None)
        self.server = Transport(self, server_addr, client_addr, server)
        self.client.peer = self.server
        self.server.peer = self.client

    @property
    def port(self):
        return self.server.addr[1]

    @property
    def active(self):
        return not (self.client.lost and self.server.lost)

    def cut(self, delay_client=0, delay_server=0, drop=True):
        """Break connection, each side sees reset after delay in ms"""
        for t, delay in ((self.client, delay_client),
                         (self.server, delay_server)):
            if drop:
                t.blackhole = True
            t.cut = True
            self.net.loop.delay(delay, t.connection_lost,
                                ConnectionResetError(104, 'reset'))

    def blackhole(self):
        """Silently drop everything from now on"""
        self.client.blackhole = True
        self.server.blackhole = True


class Transport(asyncio.Transport):

    def __init__(self, link, addr, peer_addr, srv):
        super().__init__({'sockname': addr, 'peername': peer_addr,
                          'ssl_object': None})
        self._link = link
        self._loop = link.net.loop
        self.addr = addr
        self.peer = None
        self._srv = srv
        self._latency = Cyc(link.net._latency)
        self._chunk = Cyc(link.net._chunk)
        self._hwm = link.net._hwm
        self.protocol = None
        self.made = False
        self.lost = False
        self.closing = False
        self.blackhole = False
        self.cut = False
        self._in = collections.deque()  # arrived, not yet read
        self._reading = True
        self._pipe = collections.deque()  # sent, not yet arrived
        self._in_flight = 0
        self._last_arrival = 0
        self._write_paused = False
        self.written = 0
        self.on_end = None

    def start(self, protocol):
        self.protocol = protocol

    def connection_made(self):
        if self.lost:
            return
        self.made = True
        self.protocol.connection_made(self)
        self._loop.call_soon(self._process)

    # writing

    def write(self, data):
        data = bytes(data)
        if self.lost or self.closing or not data:
            return
        self.written += len(data)
        # great data is not sent in unlimited number of chunks
        least = len(data) // 2000
        pos = 0
        while pos < len(data):
            n = max(self._chunk.next() or len(data), least)
            chunk = data[pos:pos+n]
            pos += n
            self._in_flight += len(chunk)
            self._send(chunk)
        if self._in_flight > self._hwm and not self._write_paused:
            self._write_paused = True
            self.protocol.pause_writing()

    def _send(self, item):
        arrival = max(self._last_arrival,
                      self._loop.time() + self._latency.next() * MS)
        self._last_arrival = arrival
        # timers of equal time are not ordered, order is kept by the pipe
        self._pipe.append(item)
        if arrival > self._loop.time():
            self._loop.call_at(arrival, self._arrive)
        else:
            self._loop.call_soon(self._arrive)

    def _arrive(self):
        item = self._pipe.popleft()
        if self.blackhole or self.peer.cut:
            return
        if self.peer.lost:
            if isinstance(item, bytes):
                # peer is gone
                self._loop.call_soon(self.connection_lost,
                                     ConnectionResetError(104, 'reset'))
            return
        self.peer._in.append(item)
        self.peer._process()

    def _consumed(self, n):
        self._in_flight -= n
        if (self._write_paused and not self.lost and
                self._in_flight <= self._hwm // 4):
            self._write_paused = False
            self.protocol.resume_writing()

    # reading

    def _process(self):
        if not self.made:
            return
        while self._in and self._reading and not self.lost:
            item = self._in.popleft()
            if isinstance(item, bytes):
                self.peer._consumed(len(item))
                if not self.closing:
                    self.protocol.data_received(item)
            elif item == 'fin':
                self._end()
                if not self.closing:
                    keep = self.protocol.eof_received()
                    if not keep:
                        self.close()
            else:
                self.connection_lost(ConnectionResetError(104, 'reset'))

    def pause_reading(self):
        self._reading = False

    def resume_reading(self):
        if not self._reading:
            self._reading = True
            self._loop.call_soon(self._process)

    def is_reading(self):
        return self._reading

    # closing

    def is_closing(self):
        return self.closing or self.lost

    def close(self):
        if self.closing or self.lost:
            return
        self.closing = True
        self._reading = True
        self._loop.call_soon(self._process)
        self._close_flush()

    def _close_flush(self):
        if self.lost:
            return
        if self._in_flight > self._hwm and not self.blackhole:
            self._loop.call_later(MS, self._close_flush)
            return
        self._send('fin')
        self._loop.call_soon(self.connection_lost, None)

    def abort(self):
        if self.lost:
            return
        self.closing = True
        self._send('rst')
        self._loop.call_soon(self.connection_lost, None)

    def connection_lost(self, exc):
        if self.lost:
            return
        self.lost = True
        self.closing = True
        self._end()
        try:
            if self.made:
                self.protocol.connection_lost(exc)
        finally:
            if self._srv:
                self._srv._detach(self)

    def _end(self):
        on_end, self.on_end = self.on_end, None
        if on_end:
            on_end()

    # other

    def get_write_buffer_size(self):
        return self._in_flight

    def set_write_buffer_limits(self, high=None, low=None):
        pass

    def can_write_eof(self):
        return False

    def get_protocol(self):
        return self.protocol

    def set_protocol(self, protocol):
        self.protocol = protocol

    def __hash__(self):
        return hash(self.addr) ^ hash(self.get_extra_info('peername'))


# running

def run(fn, conf=None, max_time=MAX_TIME):
    """Run coroutine function `fn(loop)` in new simulation"""
    global _hashes
    _hashes = itertools.count(1)
    loop = SimLoop(conf, max_time)
    patches.Clock.now = lambda: loop.epoch + loop._now
    prev_hook = patches.EnvHooks.begin
    if loop._preempt is not None:
        patches.EnvHooks.begin = _begin_hook(loop, prev_hook)
    task = None
    try:
        task = loop.create_task(fn(loop))
        try:
            return loop.run_until_complete(task)
        except asyncio.CancelledError as e:
            raise Violation(f'unexpected cancellation: {describe(e)}') from e
        except SimDeadlock:
            raise Violation(f'hang: nothing can happen while waiting in '
                            f'{_where(task)}') from None
        except SimLimit as e:
            raise Violation(f'hang: {e} while waiting in '
                            f'{_where(task)}') from None
    finally:
        try:
            _cleanup(loop)
        finally:
            patches.Clock.now = None
            patches.EnvHooks.begin = prev_hook


def _where(task):
    names = []
    coro = task.get_coro()
    while coro is not None:
        frame = getattr(coro, 'cr_frame', None)
        if frame is not None:
            names.append(f'{frame.f_code.co_name}:{frame.f_lineno}')
        coro = getattr(coro, 'cr_await', None)
    return ' > '.join(names)


def _cleanup(loop):
    loop._max_time = loop._now + 1000
    loop._idle_steps = 0
    violations = len(core.raised)
    try:
        for _ in range(5):
            tasks = [i for i in asyncio.all_tasks(loop) if not i.done()]
            if not tasks:
                break
            for i in tasks:
                i.cancel()
            try:
                loop.run_until_complete(asyncio.wait(tasks, timeout=100))
            except (SimDeadlock, SimLimit):
                break
            except BaseException:
                pass
    finally:
        del core.raised[violations:]
        loop.close()


async def within(seconds, awaitable, what):
    """Result of awaitable which must be finished in virtual time limit"""
    task = asyncio.ensure_future(awaitable)
    done, _ = await asyncio.wait([task], timeout=seconds)
    if not done:
        where = _where(task) if isinstance(task, asyncio.Task) else ''
        task.cancel()
        raise Violation(f'hang: {what} not finished in {seconds} s ({where})')
    return task.result()


async def settle(loop, steps=40):
    """Let everything ready run"""
    for _ in range(steps):
        await asyncio.sleep(0)


async def outcome(awaitable):
    """('ok', result) or ('error', exception), cancellation propagates"""
    try:
        return 'ok', await awaitable
    except asyncio.CancelledError:
        raise
    except (Violation, HarnessError):
        raise
    except Exception as e:
        return 'error', e
