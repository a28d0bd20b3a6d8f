"""C25: a long-lived loader or dumper keeps nothing of the data."""
import collections
import datetime
import functools
import ipaddress
import random
import re
import types
import uuid

from .. import core
from ..schema import Basic, Dct, NewT, Obj, Seq, Strc, Tup, Uni
from ..work import Op, Work, deep
from .c05 import KINDS, Side, measure, pick_instant

BLOCK = 80
RUNS = {'quick': 3500, 'thorough': 60000}
RULE = ('one run: drawn schema and settings, a long-lived loader or dumper (in part of the runs the functions of the module) and 2-6 operations on good and '
        'bad data; they are repeated with new data of the same shape, some of them interrupted, running out of memory or in several threads; everything that can be '
        'reached from the object and from the modules of the library is visited after each round: it holds no container of the data given or '
        'returned and none of its marked texts and numbers, and it does not grow round after round; non-trivial: there were marks in the data')
STUBS = 'delivery of exceptions, failing allocations and thread scheduling (simulated), threading/_thread/time/random as seen by the library'
ASSUMPTIONS = ['what one round meets first (a type behind a default) may make the state grow once, so growth counts when every one of five rounds has it',
               'what is only reachable through the classes of the user is not visited (C11 compares them)']

MARK = 1000003
_MARKED = re.compile('~[0-9]+~')


class Marks:
    """Data that is never twice the same."""
    def __init__(self):
        self.n = 0
        self.ints = set()

    def text(self):
        self.n += 1
        return '~%d~' % self.n

    def other(self, name):
        if name in ('Path', 'Pattern'):
            return self.text()
        self.n += 1
        n = self.n
        if name == 'timedelta':
            return float(n)
        return str({
            'UUID': lambda: uuid.UUID(int=n * MARK), 'IPv4Address': lambda: ipaddress.IPv4Address(0x0a000000 + n), 'IPv6Address': lambda: ipaddress.IPv6Address((0xfe80 << 112) + n),
            'IPv4Network': lambda: ipaddress.IPv4Network(((n & 0xffffff) << 8, 24)), 'IPv6Network': lambda: ipaddress.IPv6Network((n << 64, 64)),
            'IPv4Interface': lambda: ipaddress.IPv4Interface((0x0a000000 + n, 24)), 'IPv6Interface': lambda: ipaddress.IPv6Interface((n, 64)),
            'date': lambda: datetime.date.fromordinal(700000 + n), 'time': lambda: datetime.time(1, 2, 3, n % 1000000),
            'datetime': lambda: (datetime.datetime(2020, 1, 1) + datetime.timedelta(seconds=n)).isoformat()}[name]())

    def number(self):
        self.n += 1
        self.ints.add(self.n * MARK)
        return self.n * MARK


def fresh(t, av, m, ch):
    """Data of the same shape, with other values."""
    if isinstance(t, Basic):
        if t.name == 'int':
            return m.number()
        if t.name == 'float':
            return m.number() + 0.5
        if t.name == 'str':
            return m.text()
        if t.name == 'bytes':
            return m.text().encode()
        return av
    if isinstance(t, Strc):
        return m.other(t.name)
    if isinstance(t, NewT):
        return fresh(t.t, av, m, ch)
    if isinstance(t, Seq):
        return [fresh(t.t, a, m, ch) for a in av]
    if isinstance(t, Tup):
        return [fresh(x, a, m, ch) for x, a in zip(t.ts, av)]
    if isinstance(t, Dct):
        return [(fresh(t.k, k, m, ch), fresh(t.v, v, m, ch)) for k, v in av]
    if isinstance(t, Uni):
        return [av[0], fresh(t.ts[av[0]], av[1], m, ch)]
    if isinstance(t, Obj):
        return {f.name: fresh(f.t, av[f.name], m, ch) for f in t.cls.fields if f.name in av}
    return av


def disturb(doc, m, plan, depth=0):
    """The document with other texts, numbers and unknown fields where the plan says so; the plan is the same one every time."""
    how = plan()
    t = type(doc)
    if t is list:
        return [disturb(i, m, plan, depth + 1) for i in doc]
    if t is dict:
        r = {k: disturb(v, m, plan, depth + 1) for k, v in doc.items()}
        if how in (0, 1) and all(type(k) is str for k in r):
            r[m.text()] = m.text()
        return r
    if t is str and how < 4:
        return m.text()
    if t is int and how < 4:
        return m.number()
    if t is str and how == 4:
        return m.number()
    return doc


def containers(x, into, depth=0):
    """The lists, dictionaries and sets that are part of the data."""
    t = type(x)
    if depth > 60:
        return
    if t in (list, dict, set, tuple, frozenset):
        if t in (list, dict, set):
            into[id(x)] = x
        for i in (x.values() if t is dict else x):
            containers(i, into, depth + 1)
    elif hasattr(t, '__dataclass_fields__') or hasattr(t, '__attrs_attrs__'):
        for n in [f for f in getattr(t, '__dataclass_fields__', ())] or [a.name for a in getattr(t, '__attrs_attrs__', ())]:
            containers(getattr(x, n, None), into, depth + 1)
    elif isinstance(x, tuple):
        for i in x:
            containers(i, into, depth + 1)


_FUNCTION = type(lambda: 0)
_LRU = type(functools.lru_cache(lambda: 0))


def state(node, objects):
    """Everything reachable from the objects and the modules of the library: (amount, the things)"""
    seen = {}
    todo = list(objects)
    for m in node.mods.values():
        todo.extend(v for k, v in vars(m).items() if k not in ('__builtins__', '__spec__', '__loader__'))
    amount = 0
    own = set(node.mods)
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen[id(x)] = x
        t = type(x)
        amount += 1
        if t is str or t is bytes or t is bytearray:
            amount += len(x)
        elif isinstance(x, dict):
            todo.extend(list(x.keys()))
            todo.extend(list(x.values()))
            if t is not dict:
                todo.append(getattr(x, '__dict__', None))
        elif isinstance(x, (list, tuple, set, frozenset, collections.deque)):
            todo.extend(list(x))
            todo.append(getattr(x, '__dict__', None))
        elif isinstance(x, types.ModuleType):
            pass
        elif isinstance(x, type):
            if x.__module__ in own:
                todo.extend(v for k, v in list(vars(x).items()) if k not in ('__dict__', '__weakref__', '__doc__', '__module__'))
        elif t is _FUNCTION:
            if x.__module__ in own:
                todo.append(x.__defaults__)
                todo.append(x.__kwdefaults__)
                todo.append(x.__dict__)
                for c in x.__closure__ or ():
                    try:
                        todo.append(c.cell_contents)
                    except ValueError:
                        pass
        elif t is types.MethodType:
            todo.append(x.__self__)
            todo.append(x.__func__)
        elif t is _LRU:
            amount += x.cache_info().currsize
            todo.append(getattr(x, '__wrapped__', None))
        elif getattr(t, '__module__', None) in ('typing', 'types'):
            # an annotation
            pass
        elif not hasattr(t, '__attrs_attrs__') and not hasattr(t, '__dataclass_fields__') or t.__module__ in own:
            d = getattr(x, '__dict__', None)
            if isinstance(d, dict):
                todo.append(d)
            for k in t.__mro__:
                s = k.__dict__.get('__slots__', ())
                for n in (s,) if isinstance(s, str) else s:
                    try:
                        todo.append(getattr(x, n))
                    except Exception:
                        pass
    return amount, seen


def find(seen, data, marks):
    """Something of the data that is still there"""
    for i, x in data.items():
        if i in seen:
            return x
    for x in seen.values():
        t = type(x)
        if t is str and '~' in x and _MARKED.search(x):
            return x
        if t is bytes and b'~' in x and _MARKED.search(x.decode('latin1')):
            return x
        if t is int and x in marks.ints or t is float and x - 0.5 in marks.ints:
            return x
    return None


def run(env):
    ch = env.ch
    w = Work(env, wild=25, odd=ch.flag(50), hooks=ch.flag(20))
    s = Side(env, w, not ch.flag(40))
    pool = []
    for i, o in enumerate(s.pool + ([w.good_op(50)] if s.load else [w.dump_op(50, bad=0)])):
        if _MARKED.search(repr(o.doc)):
            continue
        pool.append(o)
    if not pool:
        raise core.Discard()
    sane = w.nsane
    node = w.node()
    node.activate()
    obj = s.obj(node)
    tl = node.tl
    module = ch.flag(12)
    objects = [] if module else [obj]
    m = Marks()

    seeds = [ch.draw(1 << 16) if s.load and ch.flag(40) else None for o in pool]

    def renew(o, seed):
        """The operation with new data."""
        if 'odd' in o.how or 'derived' in o.how:
            return o
        if s.load and (seed is not None or not o.good or o.av is None or o.root >= sane):
            doc = disturb(o.doc, m, functools.partial(random.Random(seed or 0).randrange, 10))
            r = Op(('new', o.key, m.n), o.root, doc, False, o.how, None)
        elif o.av is None or o.root >= sane:
            return o
        else:
            av = fresh(w.roots[o.root], o.av, m, ch)
            r = Op(('new', o.key, m.n), o.root, w.roots[o.root].doc(av, w.cfg) if s.load else av, o.good, o.how, av)
        r.wrap, r.annotated = o.wrap, o.annotated
        return r

    def call(o, x, data):
        if module:
            r = core.call(tl.load, x, node.schema['R%d' % o.root], **w.cfg.loader_kw()) if s.load else core.call(tl.dump, x, **w.cfg.dumper_kw())
        else:
            r = s.do_with(node, obj, o, x)
        if r[0] == 'ok':
            containers(r[1], data)
        return r[0]

    def round_(k, faults):
        data = {}
        ops = [renew(o, x) for o, x in zip(pool, seeds)]
        keep = []
        if faults and ch.flag(25) and len(ops) > 1:
            world = env.world(ch.pick(['few', 'mid', 'stores']))

            def actor(part):
                def fn(a):
                    for o, x in part:
                        a.begin()
                        try:
                            call(o, x, data)
                        finally:
                            a.end()
                return fn
            given = [(o, s.given(node, o)) for o in ops]
            for o, x in given:
                containers(x, data)
            keep.append(given)
            try:
                world.run_threads([actor(given[i::2]) for i in range(2)])
            finally:
                env.done_world(world)
            env.fault('preemption', world.switches)
            env.ilv = world.interleaving()
        else:
            for o in ops:
                x = s.given(node, o)
                keep.append(x)
                containers(x, data)
                if faults and not module and ch.flag(40):
                    total, sites = measure(env, s, o)
                    node.activate()
                    at = pick_instant(ch, total, sites)
                    exc = ch.pick(KINDS + (MemoryError,))('injected')
                    world = env.world('few')
                    world.main.begin(fault_at=at, fault_exc=exc)
                    try:
                        r = call(o, x, data)
                    finally:
                        world.main.end()
                        env.done_world(world)
                    if world.main.fault_fired:
                        env.fault(type(exc).__name__)
                    exc = None
                    world = None
                else:
                    r = call(o, x, data)
                env.ops += 1
                env.ev('round %d:' % k, repr(o), '->', r)
        amount, seen = state(node, objects)
        left = find(seen, data, m)
        seen.clear()
        env.check(left is None, 'kept', lambda: 'after round %d of %r there still is %s' % (k, [o.key for o in ops], core.show(('ok', repr(left)), 300)))
        env.ev('round %d: %d things' % (k, amount))
        return amount

    first = 3 + ch.draw(2)
    for k in range(first):
        # (as the interrupted ones may not have met all there is, the last ones are not)
        was = round_(k, k < first - 1)
    grows = []
    for k in range(5):
        now = round_(first + k, False)
        grows.append(now - was)
        was = now
        if grows[-1] <= 0:
            break
    env.check(not all(g > 0 for g in grows), 'grows', lambda: 'each round of the same operations on new data adds to what is kept: %r, %r' % (grows, pool))
    env.nontrivial = m.n > 0
