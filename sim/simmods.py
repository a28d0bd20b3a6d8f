"""What the library gets when it imports threading, _thread, time or random.

Today it imports none of them; these are here so that a version of it that does stays inside the
simulation: locks are scheduled, clocks are simulated, random numbers are seeded.
"""
import random as _random
import sys
import threading as _threading
import _thread as __thread
import time as _time
import types

WORLD = None    # the running sched.World, or None


class SimDeadlock(BaseException):
    """Every actor waits for another one."""


class SimLock:
    reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0

    def _me(self):
        w = WORLD
        return w.current if w is not None and w.current is not None else 'main'

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        while self._owner is not None and not (self.reentrant and self._owner == me):
            if not blocking:
                return False
            w = WORLD
            if w is None or not w.threaded:
                if timeout is not None and timeout >= 0:
                    return False
                raise SimDeadlock('a lock is requested by the only thread there is, while it is held')
            if not w.block(self):
                if timeout is not None and timeout >= 0:
                    return False
                raise SimDeadlock('all threads wait for locks')
        self._owner = me
        self._count += 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError('release unlocked lock')
        if self.reentrant and self._owner != self._me():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if self._count == 0:
            self._owner = None
            w = WORLD
            if w is not None and w.threaded:
                w.unblock(self)

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    acquire_lock, release_lock, locked_lock = acquire, release, locked

    def _is_owned(self):
        return self._owner == self._me()

    def __deepcopy__(self, memo):
        raise TypeError("cannot pickle '_thread.lock' object")


class SimRLock(SimLock):
    reentrant = True


def _proxy(real, **over):
    m = types.ModuleType(real.__name__)
    for k, v in vars(real).items():
        if not (k.startswith('__') and k.endswith('__')):
            m.__dict__[k] = v
    if hasattr(real, '__all__'):
        m.__all__ = list(real.__all__)
    m.__dict__.update(over)
    return m


def now():
    """Simulated time: one microsecond per executed instruction, plus what was slept."""
    w = WORLD
    return 1700000000.0 + (w.sim_us() / 1e6 if w is not None else 0.0)


def _sleep(s):
    w = WORLD
    if w is not None:
        w.slept_us += int(s * 1e6)
        w.yield_now('sleep')


_rng = _random.Random(0)
MODULES = {
    'threading': _proxy(_threading, Lock=SimLock, RLock=SimRLock, _allocate_lock=SimLock,
                        get_ident=lambda: _threading.get_ident()),
    '_thread': _proxy(__thread, allocate_lock=SimLock, allocate=SimLock, RLock=SimRLock, LockType=SimLock),
    'time': _proxy(_time, time=now, monotonic=now, perf_counter=now, process_time=now,
                   time_ns=lambda: int(now() * 1e9), monotonic_ns=lambda: int(now() * 1e9),
                   perf_counter_ns=lambda: int(now() * 1e9), sleep=_sleep),
    'random': _proxy(_random, random=_rng.random, randrange=_rng.randrange, randint=_rng.randint,
                     choice=_rng.choice, shuffle=_rng.shuffle, sample=_rng.sample, seed=_rng.seed,
                     getrandbits=_rng.getrandbits, uniform=_rng.uniform),
}


def reset(seed):
    _rng.seed(seed)
    _random.seed(seed)
