"""Process-wide replacements installed before code under test is imported:

* clock functions follow the virtual clock of the running simulation
* lmdb environments are created through an observable proxy
"""
import datetime as _datetime
import time as _time

real_time = _time.time
real_time_ns = _time.time_ns
real_datetime = _datetime.datetime

import hypothesis  # NOQA  (keeps references to real functions)
import hypothesis.strategies  # NOQA


class Clock:
    """Current virtual clock, function returning seconds since epoch"""
    now = None


def time():
    return Clock.now() if Clock.now else real_time()


def time_ns():
    return round(Clock.now() * 1_000_000) * 1000 if Clock.now else real_time_ns()


class _Meta(type):

    def __instancecheck__(cls, obj):
        return isinstance(obj, real_datetime)

    def __subclasscheck__(cls, obj):
        return issubclass(obj, real_datetime)


class SimDatetime(real_datetime, metaclass=_Meta):

    def __new__(cls, *args, **kwargs):
        return real_datetime.__new__(real_datetime, *args, **kwargs)

    @classmethod
    def now(cls, tz=None):
        if not Clock.now:
            return real_datetime.now(tz)
        us = round(Clock.now() * 1_000_000)
        dt = (real_datetime(1970, 1, 1, tzinfo=_datetime.timezone.utc) +
              _datetime.timedelta(microseconds=us))
        if tz is None:
            return dt.replace(tzinfo=None)
        return dt.astimezone(tz)

    @classmethod
    def utcnow(cls):
        return cls.now()


_time.time = time
_time.time_ns = time_ns
_datetime.datetime = SimDatetime


import lmdb  # NOQA

real_environment = lmdb.Environment


class EnvHooks:
    """Hooks of running case"""
    begin = None  # callable(env_proxy, write)
    opened = None  # callable(env_proxy)
    closing = None
    step = None  # callable(env_proxy), after implicit transactions
    synced = None  # callable(env_proxy), after explicit synchronisation


open_envs = []


def close_envs():
    """Close everything left open by failed case"""
    while open_envs:
        env = open_envs.pop()
        try:
            env.close()
        except Exception:
            pass


class EnvProxy:

    def __init__(self, *args, **kwargs):
        self.args = args
        self.kwargs = kwargs
        self.env = real_environment(*args, **kwargs)
        open_envs.append(self.env)
        if EnvHooks.opened:
            EnvHooks.opened(self)

    def begin(self, db=None, parent=None, write=False, buffers=False):
        if EnvHooks.begin:
            txn = EnvHooks.begin(self, write, buffers)
            if txn is not None:
                return txn
        kwargs = {'parent': parent} if parent is not None else {}
        if db is not None:
            kwargs['db'] = db
        return self.env.begin(write=write, buffers=buffers, **kwargs)

    def open_db(self, key=None, txn=None, *args, **kwargs):
        while hasattr(txn, '_txn'):
            txn = txn._txn
        result = self.env.open_db(key, txn, *args, **kwargs)
        if EnvHooks.step and txn is None:
            EnvHooks.step(self)
        return result

    def sync(self, *args, **kwargs):
        result = self.env.sync(*args, **kwargs)
        if EnvHooks.synced:
            EnvHooks.synced(self)
        return result

    def close(self):
        if EnvHooks.closing:
            EnvHooks.closing(self)
        self.env.close()
        open_envs[:] = [i for i in open_envs if i is not self.env]

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()

    def __getattr__(self, name):
        return getattr(self.env, name)


lmdb.Environment = EnvProxy
lmdb.open = EnvProxy
