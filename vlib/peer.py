"""Peers composing and sending arbitrary bytes"""
import asyncio

from hypothesis import strategies as st

from vlib import gen

from hat.drivers import chatter
from hat.drivers import net as drivers_net
from hat.event import common

_chatter = chatter._sbs_repo

TYPES = ['HatEventer.' + i for i in (
    'MsgInitReq', 'MsgInitRes', 'MsgStatusNotify', 'MsgEventsNotify',
    'MsgEventsAck', 'MsgRegisterReq', 'MsgRegisterRes', 'MsgQueryReq',
    'MsgQueryRes', 'Event', 'Status')] + ['HatEventAdminer.' + i for i in (
        'MsgGetLogConfReq', 'MsgGetLogConfRes', 'MsgSetLogConfReq',
        'MsgSetLogConfRes')] + ['HatChatter.Msg', 'HatChatter.Ping',
                                'HatChatter.Pong', 'HatEventer.X', 'X.Y',
                                'X', '', 'HatEventer', '.', 'HatEventer.']

hexed = st.builds(bytes.hex, st.binary(max_size=40))

_pos = st.integers(0, 400)

mutation = gen.one_of(
    st.tuples(st.just('xor'), _pos, st.integers(1, 255)),
    st.tuples(st.just('xor'), st.integers(0, 12), st.integers(1, 255)),
    st.tuples(st.just('set'), _pos, st.sampled_from([0, 1, 127, 128, 255])),
    st.tuples(st.just('cut'), _pos, st.integers(1, 20)),
    st.tuples(st.just('end'), _pos, st.just(0)),
    st.tuples(st.just('repeat'), _pos, st.integers(1, 20)),
    st.tuples(st.just('insert'), _pos, hexed))

# conversation of message
conv = gen.weighted(
    (4, st.just(['new'])),
    (2, st.tuples(st.just('reply'), st.integers(0, 4))),
    (2, st.tuples(st.just('fake'), st.booleans(), st.sampled_from(
        [1, 2, 3, 4, 0, -1, 100, 2**63 - 1]))))

other = st.tuples(st.just('other'), st.sampled_from(TYPES),
                  gen.one_of(st.just(''), st.just('00'), hexed))

raw = st.tuples(st.just('raw'), gen.one_of(
    hexed, st.builds(bytes.hex, st.binary(max_size=300)),
    st.sampled_from(['00', 'ff', '0100', '0101ff', '04ffffffff',
                     '08ffffffffffffffff', '47455420'])))

# values which can be encoded, most of them can not be used
_int = st.sampled_from([0, 1, 5, -1, 2**31, 2**32, 2**63 - 1, -2**63])
_us = gen.weighted((6, st.sampled_from([0, 1, 999_999])),
                   (1, st.sampled_from([-1, 1_000_000, 2**32, -2**63])))
wild_timestamp = st.builds(lambda s, us: {'s': s, 'us': us}, gen.one_of(
    st.integers(-3, 3), _int), _us)
_json = gen.weighted(
    (6, st.sampled_from(['null', '1', '[1, "a"]', '{"a": {"b": [1.5]}}',
                         '"\\ud800"', '-0', '1e5', '{"a":1,"a":2}'])),
    (2, st.sampled_from(['NaN', '[Infinity]', '{"a":-Infinity}', '1e999',
                         '[-1e999]', '', '{', '[1,]', "'a'",
                         '[' * 100 + ']' * 100, '[' * 100000,
                         '[' * 60000 + ']' * 60000, '9' * 5000])))
wild_payload = gen.one_of(
    st.none(), st.builds(lambda i: ['json', i], _json),
    st.builds(lambda i: ['json', i], _json),
    st.builds(lambda t, d: ['binary', t, d], gen.text, hexed))


def opt_sbs(x):
    return ('none', None) if x is None else ('value', x)


def payload_sbs(x):
    if x is None:
        return 'none', None
    if x[0] == 'json':
        return 'value', ('json', x[1])
    return 'value', ('binary', {'type': x[1], 'data': bytes.fromhex(x[2])})


def types_sbs(x):
    return opt_sbs(x)


def frame(msg_id, conv, last, msg_type, msg_data):
    owner, first = conv or (True, msg_id)
    data = _chatter.encode('HatChatter.Msg', {
        'id': msg_id, 'first': first, 'owner': owner, 'token': True,
        'last': last, 'data': {'type': msg_type, 'data': msg_data}})
    size = len(data).to_bytes(max((len(data).bit_length() + 7) // 8, 1),
                              'big')
    return bytes([len(size)]) + size + bytes(data)


def mutate(data, mutation):
    kind, pos, arg = mutation
    pos %= len(data)
    head, tail = data[:pos], data[pos:]
    if kind == 'xor':
        return head + bytes([tail[0] ^ arg]) + tail[1:]
    if kind == 'set':
        return head + bytes([arg]) + tail[1:]
    if kind == 'cut':
        return head + tail[arg:]
    if kind == 'end':
        return head
    if kind == 'repeat':
        return head + tail[:arg] + tail
    if kind == 'insert':
        return head + bytes.fromhex(arg) + tail
    raise ValueError(kind)


def valid_timestamp(t, limit=2**32):
    """Timestamp which can be stored"""
    return (isinstance(t.s, int) and isinstance(t.us, int) and
            0 <= t.us < limit)


def valid_payload(x):
    """Payload which can be stored and sent further"""
    import json
    if x is None or isinstance(x, common.EventPayloadBinary):
        return True
    try:
        json.dumps(x.data, allow_nan=False)
    except Exception:
        return False
    return True


def valid_id(x):
    return all(isinstance(i, int) and 0 <= i < 2**64 for i in x)


def valid_event(x, us_limit=2**32):
    if isinstance(x, common.Event) and not (
            valid_id(x.id) and valid_timestamp(x.timestamp, us_limit)):
        return False
    return (isinstance(x.type, tuple) and
            all(isinstance(i, str) for i in x.type) and
            (x.source_timestamp is None or
             valid_timestamp(x.source_timestamp, us_limit)) and
            valid_payload(x.payload))


class Peer:
    """Side of connection sending arbitrary frames"""

    def __init__(self, pong=True):
        self.conn = None
        self.link = None
        self.msgs = []  # received (type, data, conv, last)
        self._pong = pong
        self._id = 0
        self.closed = False

    async def connect(self, addr):
        self.attach(await drivers_net.connect(addr))

    def attach(self, conn):
        self.conn = conn
        conn.async_group.spawn(self._read_loop)

    async def _read_loop(self):
        try:
            while True:
                size = (await self.conn.readexactly(1))[0]
                size = int.from_bytes(await self.conn.readexactly(size),
                                      'big')
                msg = _chatter.decode('HatChatter.Msg', memoryview(
                    bytes(await self.conn.readexactly(size))))
                msg_type = msg['data']['type']
                conv = (not msg['owner'], msg['first'])
                if msg_type == 'HatChatter.Ping':
                    if self._pong:
                        await self.send(conv, True, 'HatChatter.Pong', b'')
                elif msg_type != 'HatChatter.Pong':
                    data = common.sbs_repo.decode(msg_type,
                                                  msg['data']['data'])
                    self.msgs.append((msg_type, data, conv, msg['last']))
                    self.on_msg(*self.msgs[-1])
        except ConnectionError:
            pass
        finally:
            self.closed = True
            self.conn.close()

    def on_msg(self, msg_type, data, conv, last):
        pass

    def conv(self, spec):
        if spec[0] == 'new':
            return None
        if spec[0] == 'reply':
            convs = [i[2] for i in self.msgs]
            return convs[spec[1] % len(convs)] if convs else None
        return spec[1], spec[2]

    async def write(self, data):
        """False if connection is closed"""
        try:
            await self.conn.write(data)
            return True
        except ConnectionError:
            return False

    async def send(self, conv, last, msg_type, msg_data, mutation=None):
        self._id += 1
        data = frame(self._id, conv, last, msg_type, msg_data)
        if mutation:
            data = mutate(data, mutation)
        return await self.write(data)
