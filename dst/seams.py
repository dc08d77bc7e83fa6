"""Seams: every source of nondeterminism a query could reach, under control.

``install()`` must run before anything of ``orient`` is imported.  The real
primitives the simulator itself needs are kept in ``raw``.  Nothing here draws
randomness: values come from ``knobs`` set per simulated run.
"""
import _thread
import builtins
import gc
import os
import random
import sys
import time
import types

raw = types.SimpleNamespace(
    allocate_lock=_thread.allocate_lock,
    start_new_thread=_thread.start_new_thread,
    get_ident=_thread.get_ident,
    set_sentinel=_thread._set_sentinel,
    monotonic=time.monotonic,
    perf_counter=time.perf_counter,
    time=time.time,
    sleep=time.sleep,
    getpid=os.getpid,
    urandom=os.urandom,
    id=builtins.id,
    Random=random.Random,
)

# set by the engine while a simulated run is going on
engine = None


class Knobs:
    """Per-run universe: values a query must not depend on."""
    def __init__(self):
        self.reset()

    def reset(self, spec=None):
        spec = spec or {}
        self.clock = float(spec.get('clock_start', 1000.0))
        self.clock_steps = tuple(spec.get('clock_steps', (0.001,)))
        self.clock_reads = 0
        self.sleeps = 0
        self.rand_salt = int(spec.get('rand_salt', 0))
        self.rand_serial = 0
        self.id_salt = spec.get('id_salt')
        self.ids, self.free, self.fresh = {}, [], 0
        self.recycle = spec.get('recycle') or 0
        self.pid = int(spec.get('pid', 4242))
        # kinds of incidental state the code under test looked at
        self.uses = set()


knobs = Knobs()


def _read_clock():
    knobs.uses.add('clock')
    step = knobs.clock_steps[knobs.clock_reads % len(knobs.clock_steps)]
    knobs.clock_reads += 1
    knobs.clock += step
    return knobs.clock


def _read_clock_ns():
    return int(_read_clock() * 1000000000)


def _sleep(seconds):
    if engine is not None and engine.owns_current_thread():
        knobs.sleeps += 1
        engine.on_sleep(seconds)
    knobs.clock += max(0., float(seconds))


def _getpid():
    knobs.uses.add('pid')
    return knobs.pid if engine is not None else raw.getpid()


def _noted(function, kind='settings'):
    """The function, its use by the code under test noted."""
    def noted(*args, **kwargs):
        if engine is not None:
            knobs.uses.add(kind)
        return function(*args, **kwargs)
    noted.__name__ = noted.__qualname__ = function.__name__
    noted.__module__ = function.__module__
    return noted


def _scramble(number):
    number = (number * 0x9E3779B97F4A7C15 + 0x7F4A7C15) & (2 ** 47 - 1)
    number ^= number >> 21
    return ((number * 0xD1342543DE82EF95) & (2 ** 47 - 1)) << 4


def sim_id(obj):
    """Deterministic address: order of first sight, scrambled by the salt.

    With ``recycle`` addresses of dead objects are used again as soon as
    possible, as an allocator may do.
    """
    knobs.uses.add('id')
    if knobs.id_salt is None:
        return raw.id(obj)
    key = raw.id(obj)
    entry = knobs.ids.get(key)
    if entry is None:
        kept = obj
        if knobs.recycle and gc.is_tracked(obj):
            # not kept alive: whatever takes its place takes its address
            kept = None
            if not knobs.fresh % knobs.recycle and not knobs.free:
                _find_dead()
        knobs.fresh += 1
        if kept is None and knobs.free:
            address = knobs.free.pop()
        else:
            address = _scramble(knobs.fresh * 1000003 + knobs.id_salt)
        entry = knobs.ids[key] = (address, kept)
    return entry[0]


def _find_dead():
    gc.collect()
    alive = {raw.id(item) for item in gc.get_objects()}
    for key, (address, kept) in list(knobs.ids.items()):
        if kept is None and key not in alive:
            del knobs.ids[key]
            knobs.free.append(address)


def sim_urandom(size):
    if engine is None:
        return raw.urandom(size)
    knobs.rand_serial += 1
    knobs.uses.add('random')
    return raw.Random(knobs.rand_salt * 1000 + knobs.rand_serial).randbytes(
        size)


class SimRandom(random.Random):
    def seed(self, a=None, version=2):
        if a is None and engine is not None:
            knobs.rand_serial += 1
            knobs.uses.add('random')
            a = knobs.rand_salt * 1000 + knobs.rand_serial
        super().seed(a, version)


def _start_new_thread(function, args, kwargs=None):
    if engine is None or not engine.owns_current_thread():
        return raw.start_new_thread(function, args, kwargs or {})
    return engine.start_helper(function, args, kwargs)


def _set_sentinel():
    if engine is None or not engine.owns_current_thread():
        return raw.set_sentinel()
    lock = SimLock()
    engine.active.sentinels.append(lock)
    return lock


class SimLock:
    """Lock whose waiting the simulated scheduler decides."""

    _reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0
        self._frame = None

    def acquire(self, blocking=True, timeout=-1):
        me = engine.current_key() if engine is not None else 'outside'
        while self._owner is not None:
            if self._reentrant and self._owner == me:
                break
            if not blocking:
                return False
            if engine is None or not engine.owns_current_thread():
                raise RuntimeError('lock held outside of simulation')
            if not engine.wait_for(self, timeout):
                return False
        self._owner = me
        self._count += 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError('release unlocked lock')
        if self._reentrant and engine is not None:
            if self._owner != engine.current_key():
                raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._owner = None
            if engine is not None:
                engine.lock_released(self)

    __enter__ = acquire

    def __exit__(self, *args):
        self.release()

    def locked(self):
        return self._owner is not None

    acquire_lock, release_lock, locked_lock = acquire, release, locked

    def _at_fork_reinit(self):
        self._owner, self._count = None, 0

    # protocol threading.Condition looks for
    def _is_owned(self):
        me = engine.current_key() if engine is not None else 'outside'
        return self._owner == me if self._reentrant else (self._owner
                                                          is not None)


class SimRLock(SimLock):
    _reentrant = True

    def _release_save(self):
        state = self._count
        self._count, self._owner = 0, None
        if engine is not None:
            engine.lock_released(self)
        return state

    def _acquire_restore(self, state):
        self.acquire()
        self._count = state


class SimSemLock:
    """Primitive behind locks of ``multiprocessing``."""
    SEM_VALUE_MAX = 2 ** 31 - 1
    handle, name = 0, None

    def __init__(self, kind, value, maxvalue, name=None, unlink=True):
        # kinds: 0 for reentrant locks, 1 for semaphores
        self.kind, self.maxvalue, self._value = kind, maxvalue, value
        self._holder, self._held = None, 0

    @property
    def _owner(self):
        return None if self._value else self._holder or 'unknown'

    def acquire(self, block=True, timeout=None):
        me = engine.current_key() if engine is not None else 'outside'
        if not self.kind and self._held and self._holder == me:
            self._held += 1
            return True
        while not self._value:
            if not block or timeout is not None and timeout <= 0:
                return False
            if engine is None or not engine.owns_current_thread():
                raise RuntimeError('semaphore held outside of simulation')
            if not engine.wait_for(self, timeout):
                return False
        self._value -= 1
        self._holder, self._held = me, self._held + 1
        return True

    def release(self):
        me = engine.current_key() if engine is not None else 'outside'
        if not self.kind:
            if self._holder != me or not self._held:
                raise AssertionError('attempt to release recursive lock not '
                                     'owned by thread')
            if self._held > 1:
                self._held -= 1
                return
        elif self._value >= self.maxvalue:
            raise ValueError('semaphore or lock released too many times')
        self._held -= 1
        self._value += 1
        if not self.kind or not self._held:
            self._holder = None
        if engine is not None:
            engine.lock_released(self)

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *args):
        self.release()

    def _is_mine(self):
        me = engine.current_key() if engine is not None else 'outside'
        return self._held > 0 and self._holder == me

    def _count(self):
        return self._held

    def _get_value(self):
        return self._value

    def _is_zero(self):
        return not self._value

    def _after_fork(self):
        self._held = 0


installed = False


def install():
    global installed
    if installed:
        return
    assert not any(name == 'orient' or name.startswith('orient.')
                   for name in sys.modules), 'too late'
    installed = True
    # everything of the runtime that must keep real locks goes in first
    import collections, contextvars, copy, decimal, enum  # noqa
    import fractions, functools, itertools, json, logging  # noqa
    import operator, pickle, queue, signal, subprocess  # noqa
    import tempfile, threading, traceback, typing, warnings  # noqa
    import weakref, heapq, datetime  # noqa
    import ground.base, prioq.base, dendroid.red_black  # noqa
    import reprit.base, symba.base  # noqa
    for name in ('time', 'monotonic', 'perf_counter', 'process_time',
                 'thread_time'):
        setattr(time, name, _read_clock)
        setattr(time, name + '_ns', _read_clock_ns)
    time.sleep = _sleep
    os.getpid = _getpid
    os.urandom = sim_urandom
    random._urandom = sim_urandom
    random.Random = SimRandom
    threading.Lock = _thread.allocate_lock = SimLock
    threading._allocate_lock = _thread.allocate = SimLock
    threading.RLock = threading._RLock = SimRLock
    threading._CRLock = SimRLock
    _thread.RLock = SimRLock
    threading._start_new_thread = _start_new_thread
    _thread.start_new_thread = _thread.start_new = _start_new_thread
    threading._set_sentinel = _set_sentinel
    threading._time = _read_clock
    import _multiprocessing
    _multiprocessing.SemLock = SimSemLock

    class SimDatetime(datetime.datetime):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(_read_clock() + 1700000000, tz)

        @classmethod
        def utcnow(cls):
            return cls.now(datetime.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return cls.now()

    datetime.datetime = SimDatetime
    queue.time = _read_clock
    queue.SimpleQueue = queue._PySimpleQueue
    builtins.id = sim_id
    # only noted: settings a universe may vary
    for module, names in ((gc, ('isenabled', 'get_count', 'get_threshold',
                                'get_stats', 'get_objects')),
                          (sys, ('getrecursionlimit', 'getswitchinterval',
                                 'getallocatedblocks')),
                          (os, ('getcwd', 'getenv', 'cpu_count', 'times')),
                          (threading, ('active_count', 'enumerate',
                                       'current_thread', 'main_thread',
                                       'get_ident'))):
        for name in names:
            if hasattr(module, name):
                setattr(raw, name, getattr(module, name))
                setattr(module, name, _noted(getattr(module, name)))
    # Condition, Event, Semaphore, Queue, ... are pure Python over these
