"""C26: loads and dumps leave the process alone, and do not depend on its settings."""
import _abc
import atexit
import builtins
import collections
import collections.abc
import contextvars
import copy
import copyreg
import dataclasses
import datetime
import decimal
import enum
import faulthandler
import gc
import inspect
import io
import ipaddress
import json
import locale
import logging
import numbers
import os
import pathlib
import random
import re
import resource
import signal
import sys
import threading
import time
import tracemalloc
import types
import typing
import uuid
import warnings

import attr

from .. import core, hooks, simmods
from ..work import Work
from .c05 import KINDS, Side, measure, pick_instant
from .c06 import depth_now

BLOCK = 80
RUNS = {'quick': 3500, 'thorough': 60000}
RULE = ('one run: the settings of the process are drawn (collector, recursion limit, filters of warnings, precision of decimals, environment, directory, ...), then '
        '2-8 loads or dumps, good and bad ones, some interrupted or running out of memory at a drawn instruction, some in several threads; the user changes '
        'settings between operations, in his callbacks and in other threads; everything the process shares is compared with a model before, during (in callbacks and '
        'other threads) and after, and the outcomes with the ones under default settings; non-trivial: a setting was not the default, or a fault was injected')
STUBS = 'delivery of exceptions, failing allocations and thread scheduling (simulated), threading/_thread/time/random as seen by the library'
ASSUMPTIONS = ['what only the interpreter or the standard library keep for themselves (caches, loaded modules) is no setting']

MODULES = (builtins, typing, types, enum, dataclasses, collections, collections.abc, json, json.encoder, json.decoder, copy, datetime, inspect, numbers, attr, ipaddress, copyreg)
CLASSES = (dataclasses.Field, enum.Enum, enum.EnumType, json.JSONEncoder, json.JSONDecoder, pathlib.PurePath, pathlib.Path, pathlib.PosixPath, uuid.UUID,
           ipaddress.IPv4Address, ipaddress.IPv6Address, ipaddress.IPv4Network, ipaddress.IPv4Interface, attr.Attribute, collections.UserDict, collections.OrderedDict,
           typing.ForwardRef, typing._GenericAlias, typing._SpecialForm, typing.NewType, typing.TypeVar, warnings.catch_warnings)
ABCS = (collections.abc.Sequence, collections.abc.Mapping, collections.abc.Set, collections.abc.Iterable, collections.abc.MutableMapping,
        collections.abc.MutableSequence, collections.abc.Hashable, collections.abc.Callable, collections.abc.Collection, numbers.Number, numbers.Real, numbers.Integral, os.PathLike)
SIGNALS = sorted(signal.valid_signals())
_LAZY = ('__annotations__', '__doc__', '__warningregistry__', '__abstractmethods__')


_Environ = type(os.environ)


class AnyEnviron(_Environ):
    """An environment that has all variables."""
    def __getitem__(self, k):
        try:
            return super().__getitem__(k)
        except KeyError:
            return '1'

    def __contains__(self, k):
        return True


def _patched():
    return hash(tuple((m.__name__, tuple((k, id(v)) for k, v in list(vars(m).items()) if k not in _LAZY)) for m in MODULES + CLASSES))


def _output():
    return tuple((x is None, x.getvalue() if isinstance(x, io.StringIO) else None) for x in (sys.stdout, sys.stderr))


# What all threads share
SHARED = {
    'gc.isenabled': gc.isenabled,
    'gc.get_threshold': gc.get_threshold,
    'gc settings': lambda: (gc.get_debug(), len(gc.callbacks), len(gc.garbage)),
    'recursion limit': sys.getrecursionlimit,
    'switch interval': sys.getswitchinterval,
    'digits of int': sys.get_int_max_str_digits,
    'filters of warnings': lambda: tuple(warnings.filters),
    'warnings': lambda: (id(warnings.showwarning), id(warnings._showwarnmsg_impl), id(warnings.formatwarning), id(warnings.warn)),
    'hooks of sys': lambda: tuple(id(getattr(sys, n)) for n in ('excepthook', 'displayhook', 'unraisablehook', 'breakpointhook', '__excepthook__', 'stdin', 'stdout', 'stderr')),
    'output': _output,
    'sys': lambda: (tuple(map(str, sys.path)), tuple(map(id, sys.meta_path)), tuple(map(id, sys.path_hooks)), tuple(sys.argv), sys.dont_write_bytecode,
                    getattr(sys, 'tracebacklimit', None), getattr(sys, 'ps1', None), tuple(sys.warnoptions)),
    'locale': lambda: locale.setlocale(locale.LC_ALL, None),
    'random': lambda: hash((random.getstate(), simmods._rng.getstate())),
    'signals': lambda: tuple(id(signal.getsignal(n)) for n in SIGNALS),
    'directory': os.getcwd,
    'environment': lambda: dict(os.environ),
    'time zone': lambda: (time.tzname, time.timezone),
    'logging': lambda: (logging.root.level, logging.root.manager.disable, tuple(map(id, logging.root.handlers)), logging.raiseExceptions, id(logging.lastResort),
                        id(logging.getLoggerClass()), dict(logging._nameToLevel)),
    'atexit': atexit._ncallbacks,
    'copyreg': lambda: (len(copyreg.dispatch_table), len(copyreg._extension_registry)),
    'default context of decimals': lambda: (decimal.DefaultContext.prec, decimal.DefaultContext.rounding),
    'classes and functions of the standard library': _patched,
    'abstract base classes': lambda: tuple(len(_abc._get_dump(c)[0]) for c in ABCS),
    'hooks of threads': lambda: (id(threading.excepthook), id(threading._trace_hook), id(threading._profile_hook), threading.stack_size(),
                                 id(simmods.MODULES['threading'].excepthook)),
    'priority': lambda: (os.getpriority(os.PRIO_PROCESS, 0), os.sched_getaffinity(0), os.getpgrp()),
    'diagnostics': lambda: (faulthandler.is_enabled(), tracemalloc.is_tracing()),
    'limits': lambda: tuple(resource.getrlimit(getattr(resource, n)) for n in ('RLIMIT_STACK', 'RLIMIT_AS', 'RLIMIT_NOFILE', 'RLIMIT_CORE', 'RLIMIT_DATA')),
}


# What is cheap enough to be looked at hundreds of times
COSTLY = {k: SHARED[k] for k in ('classes and functions of the standard library', 'signals', 'environment')}
QUICK = {k: v for k, v in SHARED.items() if k not in COSTLY and k not in ('random', 'limits', 'atexit', 'sys', 'abstract base classes')}


def _decimals():
    c = decimal.getcontext()
    return (id(c), c.prec, c.rounding, c.Emin, c.Emax, c.capitals, c.clamp, tuple(k for k, v in c.traps.items() if v))


# What each thread has of its own
OWN = {
    'context of decimals': _decimals,
    'context variables': lambda: {v.name: id(x) for v, x in contextvars.copy_context().items() if v.name != 'decimal_context'},
    'blocked signals': lambda: signal.pthread_sigmask(signal.SIG_BLOCK, ()),
    'profiler': lambda: id(sys.getprofile()),
    'hooks of generators': lambda: tuple(map(id, sys.get_asyncgen_hooks())) + (sys.get_coroutine_origin_tracking_depth(),),
}


def _environ(k, v):
    def fn():
        if v is None:
            if k in list(os.environ):
                del os.environ[k]
        else:
            os.environ[k] = v
        time.tzset()
    return fn


def _filters(*actions):
    def fn():
        # (deprecated forms of handlers are still warned about, as documented; re warns about patterns of the data)
        warnings.filters[:] = [('ignore', None, DeprecationWarning, None, 0), ('ignore', None, FutureWarning, None, 0)] + [(a, None, Warning, None, 0) for a in actions]
        warnings._filters_mutated()
    return fn


def _decimal(prec, *traps):
    def fn():
        c = decimal.getcontext()
        c.prec = prec
        for t in traps:
            c.traps[t] = True
    return fn


def _locale(name):
    def fn():
        try:
            locale.setlocale(locale.LC_ALL, name)
        except locale.Error:
            pass
    return fn


def _output_to(name, x):
    return lambda: setattr(sys, name, x() if x else None)


# What the user does: (name, what it may change, function)
CHANGES = (
    ('the collector is disabled', ('gc.isenabled',), gc.disable),
    ('the collector is enabled', ('gc.isenabled',), gc.enable),
    ('the collector is rare', ('gc.get_threshold',), lambda: gc.set_threshold(20000, 20, 20)),
    ('the collector is eager', ('gc.get_threshold',), lambda: gc.set_threshold(400, 20, 50)),
    ('recursion limit 3000', ('recursion limit',), lambda: sys.setrecursionlimit(3000)),
    ('recursion limit 1700', ('recursion limit',), lambda: sys.setrecursionlimit(1700)),
    ('short switch interval', ('switch interval',), lambda: sys.setswitchinterval(0.001)),
    ('many digits', ('digits of int',), lambda: sys.set_int_max_str_digits(9000)),
    ('any number of digits', ('digits of int',), lambda: sys.set_int_max_str_digits(0)),
    ('warnings are errors', ('filters of warnings',), _filters('error')),
    ('warnings are shown', ('filters of warnings',), _filters('always')),
    ('warnings once', ('filters of warnings',), _filters('once', 'ignore')),
    ('precision 2', ('context of decimals',), _decimal(2)),
    ('precision 5, inexact is an error', ('context of decimals',), _decimal(5, decimal.Inexact)),
    ('TZ', ('environment', 'time zone'), _environ('TZ', 'XST-7:30')),
    ('TZ west', ('environment', 'time zone'), _environ('TZ', 'WST+9')),
    ('HOME', ('environment', 'time zone'), _environ('HOME', '/nonexistent')),
    ('no HOME', ('environment', 'time zone'), _environ('HOME', None)),
    ('LANG', ('environment', 'time zone'), _environ('LC_ALL', 'C')),
    ('DEBUG', ('environment', 'time zone'), _environ('DEBUG', '1')),
    ('all variables are set', (), lambda: setattr(os.environ, '__class__', AnyEnviron)),
    ('root directory', ('directory',), lambda: os.chdir('/')),
    ('locale C', ('locale',), _locale('C')),
    ('locale C.UTF-8', ('locale',), _locale('C.UTF-8')),
    ('random numbers', ('random',), lambda: (random.seed(77), simmods._rng.seed(77))),
    ('no stdout', ('output', 'hooks of sys'), _output_to('stdout', None)),
    ('no stderr', ('output', 'hooks of sys'), _output_to('stderr', None)),
    ('another stdout', ('output', 'hooks of sys'), _output_to('stdout', io.StringIO)),
    ('logging', ('logging',), lambda: logging.root.setLevel(logging.DEBUG)),
)


def _quiet(*a, **kw):
    """Of the user: warnings, and exceptions that the interpreter can not deliver (a generator that is interrupted while it is freed)."""


# ---- values for which something of the process could matter

_UTC = datetime.timezone.utc
_EAST = datetime.timezone(datetime.timedelta(hours=5, minutes=30))


class Color(enum.Enum):
    red = 'red'
    two = 2


@dataclasses.dataclass
class Rec:
    a: int = dataclasses.field(default=1, metadata={'name': 'A'})
    b: typing.List[float] = dataclasses.field(default_factory=list)
    c: typing.Optional['Rec'] = None


class Tup(typing.NamedTuple):
    a: int
    b: str = 'x'


class Half(typing.TypedDict, total=False):
    x: int


@dataclasses.dataclass
class Lost:
    a: 'Nowhere' = 3    # noqa


@attr.s(auto_attribs=True)
class Att:
    a: int = 1
    b: typing.List[int] = attr.ib(factory=list, metadata={'name': 'B'})


@attr.s(auto_attribs=True)
class AttOne:
    kind: typing.Literal['one']
    v: int = 0


@attr.s(auto_attribs=True)
class AttTwo:
    kind: typing.Literal['two']
    v: str = ''


_STRINGS = ('', 'zz', '~', '~/q', '../x', './y', '$HOME/x', '%d', '12', '1e5', '-0', '1_0', 'nan', '9' * 600, 'a' * 300, '\ud800', 'İ', '0x10', '00:30', '2020-01-01', '12:00:00+05:30',
            '2020-01-01T00:00:00', '2020-03-29T02:30:00', '2020-03-29T02:30:00+00:00', '[[a]', '(', 'red', 'C.UTF-8', '10.0.0.1', '::1', '1.1.1.0/24')
LOADS = [(x, t) for t in (int, float, str, bool, bytes, pathlib.Path, uuid.UUID, ipaddress.IPv4Address, ipaddress.IPv6Network, ipaddress.IPv4Interface, re.Pattern, re.Pattern[str], datetime.date,
                          datetime.time, datetime.datetime, Color, typing.Literal['zz', 12], type(None), typing.Optional[int], typing.Union[datetime.date, float, str])
         for x in _STRINGS + (5, 1.5, None, True, b'x', [2020, 1, 2, 3], {})] + [
    (5, datetime.timedelta), (1e18, datetime.timedelta), ('5', datetime.timedelta), ([2020, 13, 1], datetime.date), (1700000000, datetime.datetime), (1700000000.5, datetime.datetime),
    ({}, Tup), ({'a': 1}, Tup), ({'a': 'x'}, Tup), ({'a': 1, 'z': 1}, Tup), ({'A': 2, 'b': [1], 'c': {'c': {'A': 'x'}}}, Rec), ({'A': 2, 'b': ['1'], 'c': {'c': {}}}, Rec), ({'a': 1}, Rec),
    ({'x': 1}, Half), ({'y': 1}, Half), ({'B': ['1']}, Att), ({'B': 'x'}, Att), ({'kind': 'two', 'v': 1}, typing.Union[AttOne, AttTwo]), ({'kind': 'no'}, typing.Union[AttOne, AttTwo]),
    ({'kind': []}, typing.Union[AttOne, AttTwo]), ([[1], ['x']], typing.List[typing.Set[int]]), ({'a': {'b': '1'}}, typing.Dict[str, typing.Dict[str, int]]), ([1, 2], typing.Tuple[int]),
    (range(3), typing.List[str]), ([1, 'a', None], typing.List[typing.Union[int, str, None]]), (1, object), ({}, Lost), ([[]], typing.Dict[str, int]), (5, typing.List[int]),
]
DUMPS = [1, 1.5, float('nan'), 'x', b'x', True, None, pathlib.Path('~/x'), pathlib.Path('../x'), pathlib.Path('a'), uuid.UUID(int=5), ipaddress.ip_address('::1'), re.compile('a'), re.compile(b'a'),
         re.compile('a', re.I), datetime.date(2020, 1, 1), datetime.time(1, 2, 3, 4), datetime.time(1, 2, tzinfo=_EAST), datetime.datetime(2020, 3, 29, 2, 30), datetime.datetime(2020, 3, 29, 2, 30, tzinfo=_UTC),
         datetime.datetime(2020, 3, 29, 2, 30, tzinfo=_EAST), datetime.datetime(2020, 3, 29, 2, 30, fold=1), datetime.timedelta(5, 3), Color.red, Color.two, Rec(), Rec(3, [1.5], Rec()), Tup(1), Tup(1, 'y'),
         Lost(), Att(2, [1]), AttOne('one', 3), [1, [2, {3}], (4,)], {'a': {'b': Rec()}}, {1: 2}, object, 1j, range(3), [], {}, ()]


def samples_of(node, load):
    """Outcomes of all the samples with brand new objects of the library."""
    r = []
    node.activate()
    if load:
        for kw in ({}, {'basiccast': False, 'failonextra': True}):
            l = node.Loader(**kw)
            r.extend(core.outcome_of(core.call(l.load, x, t)) for x, t in LOADS)
    else:
        for kw in ({}, {'isodates': True}, {'isodates': False, 'hidedefault': False}):
            d = node.Dumper(**kw)
            r.extend(core.outcome_of(core.call(d.dump, x)) for x in DUMPS)
    return r


def watched(env, m, fn, what):
    """A thread looks whenever it can, and sees nothing."""
    seen = []

    def watcher(frame):
        for k, f in (COSTLY if world.observations % 16 == 7 else QUICK).items():
            if not seen and f() != m.shared[k]:
                seen.append((k, f(), frame.f_code.co_name, frame.f_lineno))
    world = env.world('watch')
    world.watcher = watcher
    world.main.begin()
    try:
        return fn()
    finally:
        world.main.end()
        env.done_world(world)
        world.watcher = None
        env.fault('observation', world.observations)
        if seen:
            env.fail('changed', 'during %r (in %s, line %d): %s: %s instead of %s' % (
                what, seen[0][2], seen[0][3], seen[0][0], repr(seen[0][1])[:300], repr(m.shared[seen[0][0]])[:300]), 'changed %s' % seen[0][0])


class Restore:
    """Whatever happens, the next run finds the process as it was."""
    def __enter__(self):
        c = decimal.getcontext()
        self.was = (gc.isenabled(), gc.get_threshold(), sys.getrecursionlimit(), sys.getswitchinterval(), sys.get_int_max_str_digits(), warnings.filters, list(warnings.filters),
                    dict(os.environ), os.getcwd(), locale.setlocale(locale.LC_ALL, None), sys.stdout, sys.stderr, logging.root.level, c.copy(), len(gc.callbacks),
                    logging.root.manager.disable, list(sys.path), list(logging.root.handlers), sys.excepthook, {n: signal.getsignal(n) for n in SIGNALS}, warnings.showwarning, sys.unraisablehook)
        return self

    def __exit__(self, *a):
        (enabled, threshold, limit, interval, digits, flist, filters, environ, cwd, loc, out, err, level, context, n, disable, path, handlers, excepthook, sig, show, unraisable) = self.was
        sys.setprofile(None)
        (gc.enable if enabled else gc.disable)()
        gc.set_threshold(*threshold)
        gc.set_debug(0)
        del gc.callbacks[n:]
        sys.setrecursionlimit(limit)
        sys.setswitchinterval(interval)
        sys.set_int_max_str_digits(digits)
        warnings.filters = flist
        flist[:] = filters
        warnings.showwarning = show
        sys.unraisablehook = unraisable
        warnings._filters_mutated()
        os.environ.__class__ = _Environ
        for k in [k for k in os.environ if k not in environ]:
            del os.environ[k]
        os.environ.update(environ)
        time.tzset()
        os.chdir(cwd)
        locale.setlocale(locale.LC_ALL, loc)
        sys.stdout, sys.stderr, sys.excepthook = out, err, excepthook
        logging.root.setLevel(level)
        logging.root.manager.disable = disable
        logging.root.handlers[:] = handlers
        sys.path[:] = path
        decimal.setcontext(context)
        for k, v in sig.items():
            if signal.getsignal(k) is not v and v is not None:
                signal.signal(k, v)


class Model:
    """What the process has to look like."""
    def __init__(self, env):
        self.env = env
        self.shared = {k: f() for k, f in SHARED.items()}
        self.own = {k: f() for k, f in OWN.items()}

    def look(self, when, own=None, shared=True):
        for d, fs in ((self.shared, SHARED if shared else ()), (self.own if own is None else own, OWN)):
            for k in fs:
                v = fs[k]()
                if v != d[k]:
                    env, was = self.env, d[k]
                    env.fail('changed', '%s: %s: %s instead of %s' % (when() if callable(when) else when, k, repr(v)[:300], repr(was)[:300]), 'changed %s' % k)

    def change(self, which, own=None):
        name, what, fn = which
        fn()
        own = self.own if own is None else own
        for k in what:
            if k in OWN:
                own[k] = OWN[k]()
            else:
                self.shared[k] = SHARED[k]()
        self.env.fault('setting: ' + name)


def run(env):
    with Restore():
        _run(env)


def _run(env):
    ch = env.ch
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    sys.unraisablehook = warnings.showwarning = _quiet
    gc.enable()
    m = Model(env)
    fds = len(os.listdir('/proc/self/fd'))
    running = len([t for t in threading.enumerate() if not isinstance(t, threading._DummyThread)])
    umask = os.umask(0o22)
    os.umask(umask)
    w = Work(env, wild=25, odd=ch.flag(50), hooks=ch.flag(50))
    s = Side(env, w, not ch.flag(40))
    for o in s.pool:
        s.want(o)
    n = 2 + ch.draw(7)
    plan = []
    for k in range(n):
        o = ch.pick(s.pool)
        how = ch.weighted([(4, 'plain'), (4, 'interrupted'), (3, 'threads'), (2, 'callback'), (2, 'stack'), (2, 'watched'), (2, 'samples')])
        plan.append((o, how, measure(env, s, o) if how == 'interrupted' else None))
    node = w.node()
    node.activate()
    samples = samples_of(node, s.load) if 'samples' in [p[1] for p in plan] else ()
    m.look(lambda: 'after %r on brand new objects' % s.pool)
    obj = s.obj(node)
    m.look('after the import of the library and of the classes')
    changed = 0

    def change(own=None):
        nonlocal changed
        c = ch.pick(CHANGES)
        env.ev('the user:', c[0])
        m.change(c, own)
        changed += 1
    if ch.flag(70):
        for i in range(1 + ch.draw(3)):
            change()

    hook = hooks.Hooks()
    node.schema['_hook'] = hook
    for k, (o, how, measured) in enumerate(plan):
        if ch.flag(25):
            change()
        env.ev('operation %d (%s): %r' % (k, how, o))
        hook.then = None
        env.ops += 1
        if how == 'samples':
            for got, want, x in zip(samples_of(node, s.load), samples, (LOADS if s.load else DUMPS) * 3):
                env.same(got, want, 'depends', lambda: 'with other settings of the process (%r): %r' % (env.log[-12:], x))
            m.look('after the samples')
            obj2 = node.Loader() if s.load else node.Dumper(isodates=ch.flag(50))
            for i in range(8):
                y = ch.pick(LOADS if s.load else DUMPS)
                watched(env, m, lambda: core.call(obj2.load, *y) if s.load else core.call(obj2.dump, y), y)
            continue
        if how == 'threads':
            parts = [[o] + [ch.pick(s.pool) for _ in range(ch.draw(2))]] + [[ch.pick(s.pool) for _ in range(1 + ch.draw(2))] for _ in range(1 + ch.draw(2))]
            given = [[(p, s.given(node, p), ch.flag(20)) for p in ps] for ps in parts]
            style = ch.pick(['few', 'mid', 'stores'])
            results = []

            def actor(ps):
                def fn(a):
                    own = {k: f() for k, f in OWN.items()}
                    for p, x, c in ps:
                        if c:
                            # (between two operations of this thread, in the middle of those of the others)
                            change(own)
                        a.begin()
                        try:
                            r = s.do_with(node, obj, p, x)
                        finally:
                            a.end()
                        results.append((p, r))
                        m.look(lambda: 'in a thread that did %r, while another one is working' % p, own)
                return fn
            world = env.world(style)
            try:
                world.run_threads([actor(ps) for ps in given])
            finally:
                env.done_world(world)
            env.ilv = world.interleaving()
            env.fault('preemption', world.switches)
        else:
            x = s.given(node, o)
            hit = False
            if how == 'callback':
                left = [1 + ch.draw(3)]

                def then(where, value, thing):
                    if left[0] > 0 and ch.flag(50):
                        left[0] -= 1
                        change()
                    else:
                        m.look(lambda: 'in a callback of %r' % o)
                hook.then = then
            if how == 'watched':
                r = watched(env, m, lambda: s.do_with(node, obj, o, x), o)
            elif how == 'stack':
                # Little stack is left, as for a call made by something deep
                limit = sys.getrecursionlimit()
                sys.setrecursionlimit(depth_now() + 12 + ch.draw(60))
                m.shared['recursion limit'] = sys.getrecursionlimit()
                r = s.do_with(node, obj, o, x)
                hit = r[0] == 'exc'
                low = sys.getrecursionlimit()
                sys.setrecursionlimit(limit)
                env.check(low == m.shared['recursion limit'], 'changed', lambda: 'with little stack left, %r changed the recursion limit to %d' % (o, low))
                m.shared['recursion limit'] = limit
                env.fault('little stack', hit)
                changed += hit
            elif how == 'interrupted':
                at = pick_instant(ch, *measured)
                exc = ch.pick(KINDS + (MemoryError,))('injected')
                world = env.world('few')
                world.main.begin(fault_at=at, fault_exc=exc)
                try:
                    r = s.do_with(node, obj, o, x)
                finally:
                    world.main.end()
                    env.done_world(world)
                hit = world.main.fault_fired
                if hit:
                    env.fault(type(exc).__name__)
                    env.ev('interrupted by %s at %d' % (type(exc).__name__, at))
                exc = None
                world = None
                changed += hit
            else:
                r = s.do_with(node, obj, o, x)
            hook.then = None
            results = [] if hit else [(o, r)]
        m.look(lambda: 'after operation %d (%s), %r' % (k, how, o))
        for p, r in results:
            env.same(core.outcome_of(r), s.want(p), 'depends', lambda: 'with other settings of the process (%r): %r' % (env.log[-12:], p))
    env.check(len(os.listdir('/proc/self/fd')) == fds, 'changed', 'files are still open')
    env.check(len([t for t in threading.enumerate() if not isinstance(t, threading._DummyThread)]) == running, 'changed', 'a thread is still running')
    u = os.umask(umask)
    env.check(u == umask, 'changed', 'the mask of new files is not what it was')
    env.nontrivial = changed > 0
