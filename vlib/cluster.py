"""Complete servers in simulated environment

Each server is `async_main` of event server, closed by cancellation. Monitor
is a real observer server with scripted blessings.

"""
import asyncio
import sys
import types

from vlib import gen, net, sim
from vlib.core import Violation, check

from hat import aio
from hat.drivers import chatter
from hat.drivers import tcp
from hat.event import common
from hat.event import eventer
import hat.event.server.main
import hat.monitor.common
import hat.monitor.observer.server

HOST = '127.0.0.1'
MONITOR = tcp.Address(HOST, 4999)
ADMINER = tcp.Address(HOST, 4998)
GROUP = 'event'
MODULE = 'verif_cluster_module'
BACKEND = 'verif_cluster_backend'

_servers = {}
_listening = {}  # listening servers by port
_chatter_listen = chatter.listen


class Module(common.Module):
    """Module following commands in events"""

    def __init__(self, server, engine, source):
        self.server = server
        self.engine = engine
        self.source = source
        self.span = [asyncio.get_running_loop().time(), None]
        self._group = aio.Group()
        self._group.spawn(aio.call_on_cancel, self._on_close)
        self._subscription = common.create_subscription([('m', '*')])

    @property
    def async_group(self):
        return self._group

    @property
    def subscription(self):
        return self._subscription

    async def _on_close(self):
        await net.pause(self.server.close_delay)
        self.span[1] = asyncio.get_running_loop().time()

    async def process(self, source, event):
        command = event.type[1] if len(event.type) > 1 else None
        if command == 'fail':
            raise Exception('injected')
        elif command == 'restart':
            self.engine.restart()
        elif command == 'reset':
            self.engine.reset_monitor_ready()
        elif command == 'close':
            self.close()
        else:
            return [common.RegisterEvent(('n', *event.type),
                                         event.source_timestamp,
                                         event.payload)]


async def _create_module(conf, engine, source):
    server = _servers[conf['server']]
    await net.pause(conf['delay'])
    if conf['index'] == 0:
        server.starting()
    module = Module(server, engine, source)
    server.modules.append(module)
    return module


async def _create_backend(conf, registered_cb, flushed_cb):
    server = _servers[conf['server']]
    info = common.import_backend_info(conf['conf']['module'])
    server.backend = await aio.call(info.create, conf['conf'], registered_cb,
                                    flushed_cb)
    return server.backend


async def _listen(connection_cb, addr, *args, **kwargs):
    server = await _chatter_listen(connection_cb, addr, *args, **kwargs)
    _listening[addr.port] = server
    return server


def _install():
    py_module = types.ModuleType(MODULE)
    py_module.info = common.ModuleInfo(_create_module)
    sys.modules[MODULE] = py_module
    py_module = types.ModuleType(BACKEND)
    py_module.info = common.BackendInfo(_create_backend)
    sys.modules[BACKEND] = py_module
    chatter.listen = _listen


class Monitor:

    def __init__(self):
        self.designated = None
        self._token = 0
        self._reqs = {}

    async def start(self):
        self.server = await hat.monitor.observer.server.listen(
            MONITOR, state_cb=self._on_state, close_timeout=1)

    async def _on_state(self, server, state):
        await self._update()

    async def designate(self, name):
        self.designated = name
        self._token += 1
        await self._update()

    async def _update(self):
        await self.server.update(1, [
            i._replace(blessing_req=hat.monitor.common.BlessingReq(
                self._token if i.name == self.designated else None, None))
            for i in self.server.state.local_components])


class Server:
    """Single event server"""

    def __init__(self, server_id, backend, modules=(0,), monitor=False,
                 adminer=False, token=None, close_delay=0):
        self.id = server_id
        self.name = f'server{server_id}'
        self.addr = tcp.Address(HOST, 5000 + server_id)
        self.close_delay = close_delay
        self.task = None
        self.ending = True
        self.modules = []  # of all engines
        self.backend = None
        self.on_starting = None
        self.links = []
        _install()
        _servers[server_id] = self
        self.conf = {
            'type': 'event', 'version': '1', 'name': self.name,
            'server_id': server_id,
            'backend': {'module': BACKEND, 'server': server_id,
                        'conf': backend},
            'modules': [{'module': MODULE, 'server': server_id, 'index': i,
                         'delay': delay}
                        for i, delay in enumerate(modules)],
            'eventer_server': {'host': HOST, 'port': self.addr.port}}
        if token is not None:
            self.conf['server_token'] = token
        if adminer:
            self.conf['adminer_server'] = {'host': HOST,
                                           'port': ADMINER.port}
        if monitor:
            self.conf['monitor_component'] = {
                'host': HOST, 'port': MONITOR.port, 'group': GROUP}

    @property
    def alive(self):
        return self.task is not None and not self.task.done()

    # link of connections created by server
    @property
    def link(self):
        return self.links[-1]

    @link.setter
    def link(self, link):
        link.born = asyncio.get_running_loop().time()
        self.links.append(link)

    def starting(self):
        if self.on_starting:
            self.on_starting(self)

    def fail(self, part):
        """Close part of server, False if there is no such part"""
        resource = {'backend': self.backend,
                    'eventer': _listening.get(self.addr.port),
                    'adminer': (_listening.get(ADMINER.port)
                                if 'adminer_server' in self.conf else None)
                    }[part]
        if resource is None or not resource.is_open:
            return False
        self.ending = True
        resource.close()
        return True

    def start(self):
        async def run():
            net.connecting.set(self)
            await hat.event.server.main.async_main(self.conf)

        self.links.clear()
        self.ending = False
        self.task = asyncio.ensure_future(run())

    async def finished(self, seconds=300):
        """Wait until everything is stopped"""
        self.ending = True
        done, _ = await asyncio.wait([self.task], timeout=seconds)
        check(done, 'hang: server %s is not stopped', self.id)
        if not self.task.cancelled():
            self.task.result()
        loop = asyncio.get_running_loop()
        for i in self.modules:
            check(i.is_closed, 'module of closed server is not closed')
        for port in (self.addr.port, ):
            check(not loop.net.is_listening(port),
                  'closed server is listening')

    async def stop(self):
        self.ending = True
        self.task.cancel()
        await self.finished()


class Conn:
    """Connection of a client"""

    def __init__(self, server, name, subs=(('*',),), server_id=None,
                 persisted=False):
        self.server = server
        self.name = name
        self.subs = [list(i) for i in subs]
        self.server_id = server_id
        self.persisted = persisted
        self.link = None
        self.client = None
        self.state = 'connecting'  # connected, lost
        self.got = []
        self.statuses = []
        self.on_status = None

    @property
    def alive(self):
        return self.state == 'connected' and not self.server.ending

    async def connect(self):
        async def events_cb(client, events):
            self.got.extend(gen.events_of(events, 'notification'))

        async def status_cb(client, status):
            self.statuses.append(status)
            if self.on_status:
                await self.on_status(self, status)

        net.connecting.set(self)
        self.client = await eventer.connect(
            self.server.addr, self.name,
            subscriptions=[tuple(i) for i in self.subs],
            server_id=self.server_id, persisted=self.persisted,
            events_cb=events_cb, status_cb=status_cb)
        self.statuses.append(self.client.status)
        if self.state == 'connecting':
            self.state = 'connected'

    async def connect_within(self, seconds):
        """Connect to server which is being started"""
        loop = asyncio.get_running_loop()
        end = loop.time() + seconds
        while True:
            kind, e = await sim.outcome(self.connect())
            if kind == 'ok':
                return
            if self.server.ending:
                return
            if (loop.time() > end or not isinstance(e, ConnectionError) or
                    not self.server.alive):
                raise Violation(f'connecting to server failed: {e!r}')
            await asyncio.sleep(0.01)

    def lost(self):
        self.state = 'lost'


class Log:
    """Known events"""

    def __init__(self):
        self.events = {}

    def add(self, events, what):
        for event in events:
            other = self.events.setdefault(event.id, event)
            check(other is event or gen.same(other, event),
                  '%s: event %r is also %r', what, event, other)

    def of(self, server_id):
        return [self.events[i] for i in sorted(self.events)
                if i.server == server_id]


def ascending(events, what):
    """Identifiers of each server are ascending, timestamps not descending"""
    last = {}
    for event in events:
        prev = last.get(event.id.server)
        check(prev is None or (event.id > prev.id and
                               event.timestamp >= prev.timestamp),
              '%s: event %r after %r', what, event, prev)
        last[event.id.server] = event
