"""Common parts of checks with simulated network"""
import asyncio
import contextvars

from hypothesis import strategies as st

from vlib import gen

from hat.drivers import tcp

ADDR = tcp.Address('127.0.0.1', 1234)

conf = st.fixed_dictionaries({
    'latency': st.lists(st.sampled_from([0, 0, 1, 3, 20]), max_size=4),
    'chunk': st.lists(st.sampled_from([0, 0, 1, 7, 60]), max_size=3)})

# milliseconds or, if negative, loop iterations
delay = gen.timing([0, 0, 0, -1, -3, 1, 5, 50])


def fault(index):
    """Loss of connection"""
    return gen.one_of(
        st.tuples(st.just('close'), index),
        st.tuples(st.just('cut'), index, delay, delay),
        st.tuples(st.just('blackhole'), index))


def break_link(link, fault):
    if fault[0] == 'cut':
        link.cut(fault[2], fault[3])
    elif fault[0] == 'blackhole':
        link.blackhole()
    else:
        raise ValueError(fault[0])


connecting = contextvars.ContextVar('connecting')


def track(loop):
    """Store each link to `link` of object set as `connecting`"""
    def on_link(link):
        obj = connecting.get(None)
        if obj is not None:
            obj.link = link

    loop.net.on_link = on_link


async def pause(ms):
    loop = asyncio.get_running_loop()
    if ms:
        future = loop.create_future()
        loop.delay(ms, lambda: future.done() or future.set_result(None))
        await future


async def noticed(transport, seconds=1):
    """Wait until end of connection reaches the transport"""
    loop = asyncio.get_running_loop()
    if transport.lost:
        return
    future = loop.create_future()

    def done():
        if not future.done():
            future.set_result(None)

    # no other future in between - caller continues in next loop iteration
    transport.on_end = done
    handle = loop.call_later(seconds, done)
    try:
        await future
    finally:
        handle.cancel()
        transport.on_end = None
