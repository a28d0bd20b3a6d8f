"""The scheduler: real threads of which exactly one runs at a time, chosen by the Chooser.

Pre-emption and asynchronous faults happen between two bytecode instructions of the library (and of the
schema classes, and optionally of typing/enum/dataclass machinery the library calls into): a trace
function counts instructions and hands control over, or raises, when a drawn count is reached. Nothing
else decides who runs, so a list of draws is an exactly repeatable execution.
"""
import _thread
import dis
import enum
import sys
import typing
import zlib

from . import node as nodemod
from . import simmods

STEP_CAP = 3_000_000        # instructions per operation, far beyond what any honest operation needs
_STORE = frozenset(dis.opmap[n] for n in ('STORE_ATTR', 'STORE_SUBSCR', 'DELETE_SUBSCR', 'DELETE_ATTR', 'STORE_GLOBAL') if n in dis.opmap)
# Methods that change what they are called on
_MUTATORS = frozenset(('append', 'add', 'insert', 'pop', 'popitem', 'clear', 'update', 'setdefault', 'extend', 'remove', 'discard', 'move_to_end',
                       '__setitem__', '__setattr__', '__delitem__'))
_DEEP_FILES = frozenset((typing.__file__, enum.__file__))


class StepBudget(BaseException):
    """An operation executed more than STEP_CAP instructions."""


class Stall(Exception):
    """An actor is blocked where the simulator cannot see it (an error of the harness, not a verdict)."""


_sites = {}


def _store_sites(code):
    """Offsets right before and right after the instructions that write to shared places."""
    r = _sites.get(code)
    if r is None:
        ins = list(dis.get_instructions(code))
        offs = [i.offset for i in ins]
        r = set()
        calls = False
        for k, i in enumerate(ins):
            if i.opcode in _STORE:
                r.add(offs[k])
                if k + 1 < len(offs):
                    r.add(offs[k + 1])
            elif i.opname in ('LOAD_ATTR', 'LOAD_METHOD') and i.argval in _MUTATORS:
                calls = True
                r.add(offs[k])
            elif calls and i.opname in _POLL_AFTER:
                calls = False
                if k + 1 < len(offs):
                    r.add(offs[k + 1])
        r = _sites[code] = frozenset(r)
    return r


# Where CPython looks at pending signals and asynchronous exceptions: on entry of functions, on jumps
# backward, after calls.
_POLL = ('RESUME', 'JUMP_BACKWARD')
_POLL_AFTER = ('CALL', 'CALL_FUNCTION_EX')
# What allocates memory
_ALLOC = ('CALL', 'BUILD_', 'BINARY_OP', 'BINARY_SUBSCR', 'STORE_SUBSCR', 'STORE_ATTR', 'LOAD_ATTR', 'MAKE_FUNCTION', 'FOR_ITER', 'GET_ITER', 'LIST_',
          'SET_', 'MAP_', 'DICT_', 'FORMAT_', 'COMPARE_OP', 'CONTAINS_OP', 'IMPORT_', 'RETURN_GENERATOR', 'LOAD_GLOBAL')
_async_offs = {}
_alloc_offs = {}


def _fault_sites(code, exc):
    """Offsets of the instructions at which this kind of exception can show up."""
    memory = isinstance(exc, MemoryError)
    cache = _alloc_offs if memory else _async_offs
    r = cache.get(code)
    if r is None:
        r = set()
        prev = None
        for i in dis.get_instructions(code):
            n = i.opname
            if memory:
                if n.startswith(_ALLOC):
                    r.add(i.offset)
            elif n.startswith(_POLL) or prev in _POLL_AFTER or n in _POLL_AFTER:
                # (n in _POLL_AFTER: in what is called there, seen from here)
                r.add(i.offset)
            prev = n
        cache[code] = r
    return r


_after = {}


def _after_calls(code):
    """Offsets right after the instructions that call something, or write to shared places."""
    r = _after.get(code)
    if r is None:
        prev = None
        r = set()
        for i in dis.get_instructions(code):
            if prev in _POLL_AFTER or prev == 'RESUME' or prev is not None and dis.opmap.get(prev) in _STORE:
                r.add(i.offset)
            prev = i.opname
        r = _after[code] = frozenset(r)
    return r


def _prime():
    """The first opcode trace request of a process only takes effect for later settrace() calls."""
    def loc(f, e, a):
        return loc

    def glob(f, e, a):
        f.f_trace_opcodes = True
        return loc

    def f():
        return 1
    for _ in range(2):
        sys.settrace(glob)
        f()
        sys.settrace(None)


class Actor:
    def __init__(self, world, idx, fn):
        self.world = world
        self.idx = idx
        self.fn = fn
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.done = False
        self.waiting = None         # SimLock
        self.count = 0              # instructions in the current operation
        self.next_preempt = None    # count at which to hand over
        self.plan = None            # counts at which to hand over in any case, the next ones
        self.fault_at = None        # count at which to raise
        self.fault_exc = None
        self.cap = STEP_CAP
        self.armed = 0
        self.left = [1 << 60]
        self.fault_fired = False
        self.generators = []        # frames of generators, that may be suspended
        self.trace = None
        self.error = None

    # ---- counting

    def arm(self):
        nxt = self.cap
        if self.next_preempt is not None and self.next_preempt < nxt:
            nxt = self.next_preempt
        if self.fault_at is not None and self.fault_at < nxt:
            nxt = self.fault_at
        self.armed = max(nxt - self.count, 0)
        self.left[0] = self.armed

    def sync(self):
        """Bring count up to date (left is decremented by the trace function)."""
        used = self.armed - self.left[0]
        self.count += used
        self.armed = self.left[0]

    def expire(self, frame):
        # left went to -1: armed+1 decrements, the last one for the instruction about to run
        self.left[0] = 0
        self.sync()
        w = self.world
        if self.fault_at is not None and self.count >= self.fault_at and frame.f_lasti in _fault_sites(frame.f_code, self.fault_exc):
            exc = self.fault_exc
            self.fault_at = None
            self.fault_fired = True
            w.note('fault', self.idx, exc.__name__ if isinstance(exc, type) else type(exc).__name__,
                   frame.f_code.co_name, self.count)
            self.arm()
            self.untrace(frame)
            raise exc
        if self.count >= self.cap:
            self.cap = 1 << 60
            self.untrace(frame)
            raise StepBudget(self.count)
        if self.next_preempt is not None and self.count >= self.next_preempt:
            if self.plan is not None:
                self.next_preempt = self.plan.pop(0) if self.plan else None
            else:
                self.next_preempt = self.count + w.quantum()
            self.arm()
            w.preempt(self, frame, self.plan is not None)
        else:
            self.arm()
        # if a fault is due here, this is 0 and the next instruction comes here again
        self.left[0] -= 1
        if self.left[0] < 0:
            self.left[0] = 0
            self.armed = 0
            self.count += 1

    def untrace(self, frame):
        """
        Raising ends the tracing of this thread. Instrumentation stays as long as other threads are traced,
        and CPython 3.12 crashes on a frame that wants instruction events in a thread that is not traced.
        """
        while frame is not None:
            frame.f_trace_opcodes = False
            frame = frame.f_back
        for f in self.generators:
            f.f_trace_opcodes = False

    def begin(self, fault_at=None, fault_exc=None, cap=STEP_CAP, plan=None):
        """Start of an operation: reset the instruction counter and (re)install tracing."""
        self.count = 0
        self.cap = cap
        self.fault_at = fault_at
        self.fault_exc = fault_exc
        self.fault_fired = False
        self.plan = None if plan is None else sorted(plan)
        if plan is not None:
            self.next_preempt = self.plan.pop(0) if self.plan else None
        elif self.world.threaded:
            self.next_preempt = self.world.quantum()
        self.arm()
        sys.settrace(self.trace)

    def end(self):
        sys.settrace(None)
        self.generators.clear()
        self.sync()
        self.world.total_steps += self.count
        return self.count


class World:
    """One simulated run's scheduler. Also usable without threads, for counting and fault injection."""

    def __init__(self, chooser, style='few', deep=False):
        self.ch = chooser
        self.style = style
        self.deep = deep
        self.actors = []
        self.current = None         # index of the running actor
        self.threaded = False
        self.total_steps = 0
        self.slept_us = 0
        self.switches = 0
        self.log = []               # what happened, for digests and replay files
        self.observations = 0
        self.watcher = None         # called at instants when another thread could run
        self.done_lock = _thread.allocate_lock()
        self.deadlock = False
        simmods.WORLD = self
        self.main = Actor(self, -1, None)
        self.main.trace = self._make_trace(self.main)

    def close(self):
        sys.settrace(None)
        simmods.WORLD = None

    def sim_us(self):
        return self.total_steps + self.slept_us

    def note(self, *what):
        self.log.append(what)

    # ---- schedule decisions

    def quantum(self):
        s = self.style
        ch = self.ch
        if s == 'few':      # a handful of switches in a whole run
            v = ch.draw(4000)
            return 1 << 40 if v == 0 else 4000 - v
        if s == 'fine':
            v = ch.draw(12)
            return 1 << 40 if v == 0 else 13 - v
        if s == 'mid':
            v = ch.draw(200)
            return 1 << 40 if v == 0 else 201 - v
        if s in ('stores', 'sites'):   # decided at stores, see trace function
            return 1 << 40
        raise AssertionError(s)

    def _runnable(self):
        return [a for a in self.actors if not a.done and a.waiting is None]

    def preempt(self, actor, frame=None, force=False):
        others = [a for a in self._runnable() if a is not actor]
        if not others:
            return
        if force:
            nxt = others[self.ch.draw(len(others))]
        else:
            k = self.ch.draw(len(others) + 1)
            if k == 0:
                return
            nxt = others[k - 1]
        self.switches += 1
        if frame is not None:
            what = (actor.idx, frame.f_code.co_name, frame.f_lasti, nxt.idx)
        else:
            what = (actor.idx, '', 0, nxt.idx)
        self.log.append(('switch',) + what)
        self._handoff(actor, nxt)

    def yield_now(self, why=''):
        """An explicit yield point (in user callbacks and sources)."""
        if not self.threaded or self.current is None:
            return
        a = self.actors[self.current]
        self.preempt(a)

    def _handoff(self, frm, to):
        self.current = to.idx
        to.lock.release()
        frm.lock.acquire()
        # running again
        self.current = frm.idx

    def block(self, lock):
        a = self.actors[self.current]
        a.waiting = lock
        nxt = self._runnable()
        if not nxt:
            a.waiting = None
            self.deadlock = True
            return False
        n = nxt[self.ch.draw(len(nxt))]
        self.log.append(('block', a.idx, n.idx))
        self._handoff(a, n)
        return not self.deadlock

    def unblock(self, lock):
        for a in self.actors:
            if a.waiting is lock:
                a.waiting = None

    # ---- threads

    def _make_trace(self, actor):
        left = actor.left
        expire = actor.expire
        interesting = {}
        prefix = nodemod.PREFIX
        schema = nodemod.SCHEMA_FILE
        deep = self.deep
        world = self

        if self.style == 'sites':
            # Take note of how far in the operation each write to a shared place is
            sites = self.sites = []
            where = self.where = []

            def local(frame, event, arg):
                if event == 'opcode':
                    left[0] -= 1
                    if left[0] < 0:
                        expire(frame)
                    if frame.f_lasti in _store_sites(frame.f_code):
                        sites.append(actor.count + actor.armed - left[0])
                        where.append((frame.f_code, frame.f_lasti))
                return local
        elif self.style == 'watch':
            # Another thread that does nothing but looking, whenever it can
            def local(frame, event, arg):
                if event == 'opcode':
                    left[0] -= 1
                    if left[0] < 0:
                        expire(frame)
                    if world.watcher is not None and frame.f_lasti in _after_calls(frame.f_code):
                        world.observations += 1
                        world.watcher(frame)
                return local
        elif self.style == 'stores':
            def local(frame, event, arg):
                if event == 'opcode':
                    left[0] -= 1
                    if left[0] < 0:
                        expire(frame)
                    if world.threaded:
                        if frame.f_lasti in _store_sites(frame.f_code) and world.ch.flag(35):
                            world.preempt(actor, frame)
                return local
        else:
            def local(frame, event, arg):
                if event == 'opcode':
                    left[0] -= 1
                    if left[0] < 0:
                        expire(frame)
                return local

        def glob(frame, event, arg):
            code = frame.f_code
            v = interesting.get(code)
            if v is None:
                fn = code.co_filename
                v = interesting[code] = (fn.startswith(prefix) or fn == schema or fn.startswith('<attrs generated')
                                         or (deep and fn in _DEEP_FILES))
            if v:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
                if code.co_flags & 0x20 and world.threaded and (not actor.generators or actor.generators[-1] is not frame):
                    actor.generators.append(frame)
                return local
            return None
        return glob

    def _thread_main(self, actor):
        actor.lock.acquire()
        try:
            if not self.deadlock:
                actor.fn(actor)
        except BaseException as e:
            actor.error = e
        finally:
            sys.settrace(None)
            actor.done = True
            nxt = self._runnable()
            if nxt:
                n = nxt[self.ch.draw(len(nxt))]
                self.log.append(('end', actor.idx, n.idx))
                self.current = n.idx
                n.lock.release()
            else:
                waiting = [a for a in self.actors if not a.done]
                if waiting:
                    # Only actors that wait for locks nobody will release
                    self.deadlock = True
                    for a in waiting:
                        a.waiting = None
                    self.current = waiting[0].idx
                    waiting[0].lock.release()
                else:
                    self.current = None
                    self.done_lock.release()

    def run_threads(self, fns, timeout=60, first=None):
        self.actors = [Actor(self, i, f) for i, f in enumerate(fns)]
        for a in self.actors:
            a.trace = self._make_trace(a)
        self.done_lock.acquire()
        self.threaded = True
        for a in self.actors:
            _thread.start_new_thread(self._thread_main, (a,))
        first = self.actors[self.ch.draw(len(self.actors)) if first is None else first]
        self.current = first.idx
        first.lock.release()
        if not self.done_lock.acquire(timeout=timeout):
            raise Stall('an actor thread is blocked outside the simulator')
        self.done_lock.release()
        self.threaded = False
        self.current = None
        for a in self.actors:
            if a.error is not None and not isinstance(a.error, simmods.SimDeadlock):
                raise a.error
        for a in self.actors:
            if a.error is not None:
                raise a.error

    def interleaving(self):
        """A fingerprint of where the threads were switched."""
        return zlib.crc32(repr([x[1:] for x in self.log if x[0] == 'switch']).encode())


_prime()
