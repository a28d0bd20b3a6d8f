"""C17: the first handler whose condition accepts is the one used, everywhere; conditions that fail."""
import datetime
import enum
import pathlib
import re
import typing

from .. import core, hooks
from .. import canon as C
from ..schema import Basic, Dct, EnumT, NewT, Obj, Seq, Tup, Uni, damage
from ..work import Work, deep, draw_cfg

BLOCK = 100
RUNS = {'quick': 22000, 'thorough': 400000}
RULE = ('one run: a drawn schema, 1-5 handlers with drawn conditions put at drawn positions of the list of a loader (or dumper), that mark what the '
        'default handler gives; 3-10 loads (dumps) in a drawn order: every value of the types is marked by the first handler that accepts its type, and '
        'nothing else is, wherever in the data it is; then conditions, drawn among all those of the list, fail once at a drawn evaluation with '
        'raiseconditionerrors on (the call must raise) or for good on drawn types with it off (as if the condition were false); non-trivial: something was marked, and a condition failed')
STUBS = 'the conditions and handlers of the user (simulated: they fail as drawn)'
ASSUMPTIONS = ['conditions depend on the type only, not on the value', 'loading into basictypes inside containers uses no handlers',
               'conditions do not fail with TypeError, which inside of containers is a mismatch']


class Mark:
    """What a handler of the user gives."""
    def __init__(self, n, v):
        self.n = n
        self.v = v

    def __eq__(self, other):
        return type(other) is Mark and self.n == other.n and self.v == other.v

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return 'Mark(%r, %r)' % (self.n, self.v)

    def __canon__(self, d):
        return ('mark', self.n, C.canon(self.v, d))


def parts(t):
    """The types directly inside of a type."""
    if isinstance(t, NewT):
        return [t.t]
    if isinstance(t, (Uni, Tup)):
        return t.ts
    if isinstance(t, Seq):
        return [t.t]
    if isinstance(t, Dct):
        return [t.k, t.v]
    if isinstance(t, Obj):
        return [f.t for f in t.cls.fields]
    return []


def everything(s):
    seen = {}

    def go(t):
        if id(t) in seen:
            return
        seen[id(t)] = t
        for p in parts(t):
            go(p)
    for r in s.roots:
        go(r)
    return list(seen.values())


class Odd:
    def __init__(self, n):
        self.n = n

    def __bool__(self):
        return self.n > 0

    def __eq__(self, other):
        return False


# What conditions return
TRUTH = (True, True, True, 1, 'yes', [0], Odd(1), 2, (None,))
UNTRUTH = (False, False, False, None, 0, '', [], Odd(0), {})


class Put:
    """A handler to add."""
    def __init__(self, n, targets, pos):
        self.n = n
        self.targets = targets
        self.pos = pos

    def __repr__(self):
        return 'handler %d at %d for %s' % (self.n, self.pos, self.targets)


def broad(ch, name):
    """Conditions that accept many types."""
    return {'named': lambda t: getattr(t, '__name__', '').startswith('C'), 'all': lambda t: True}[name]


def default_handler(pristine, x):
    for c, f in pristine.handlers:
        if c(x):
            return f
    return None


def insert(ch, handlers, puts, make):
    for p in puts:
        handlers.insert(p.pos, make(p))


def evaluate(handlers, x):
    for i, (c, f) in enumerate(handlers):
        if c(x):
            return i
    return None


def run(env):
    ch = env.ch
    if ch.flag(60):
        run_load(env)
    else:
        run_dump(env)


# ---------------------------------------------------------------- loading

def run_load(env):
    ch = env.ch
    w = Work(env, draw_cfg(ch, extra=False), odd=True, allow_any=False)
    w.cfg.namespaces = True
    node = w.node()
    node.activate()
    ns = node.schema
    pristine = w.loader(node)
    ts = everything(w.s)
    real_type = {}
    for t in ts:
        src = t.src().strip("'")
        real_type[id(t)] = eval(src, ns)
    forwardy = {t.src().replace("'", '') for t in ts if list(t.refs()) and not isinstance(t, Obj)}
    hints = {'Tuple[int, int]', 'tuple[int, int]'}
    cands = [t for t in ts if t.src().replace("'", '') not in forwardy | hints and not isinstance(t, Basic)
             and not (isinstance(t, Tup) and all(isinstance(x, Basic) for x in t.ts))]
    if not cands:
        raise core.Discard()
    chosen = []
    for _ in range(ch.rng_int(1, 3)):
        x = real_type[id(ch.pick(cands))]
        if x not in chosen:
            chosen.append(x)
    env.ev('types: %r' % (chosen,))

    puts = []
    for n in range(ch.rng_int(1, 5)):
        targets = [x for x in chosen if ch.flag(60)] or [ch.pick(chosen)]
        puts.append(Put(n, targets, ch.draw(len(pristine.handlers) + n + 1) if ch.flag(60) else ch.pick([0, len(pristine.handlers) + n])))
    env.ev(repr(puts))
    originals = [default_handler(pristine, x) for x in chosen]

    yes, no = ch.pick(TRUTH), ch.pick(UNTRUTH)

    def make(p):
        def cond(t):
            return yes if any(t == x for x in p.targets) else no

        def handler(l, value, t):
            f = originals[[x == t for x in chosen].index(True)]
            return Mark(p.n, f(l, value, t))
        return (cond, handler)

    def custom(off=None, **kw):
        l = w.loader(node)
        for k, v in kw.items():
            setattr(l, k, v)
        insert(ch, l.handlers, puts, make)
        return l

    l = custom()
    default = {id(f) for c, f in pristine.handlers}
    winner = []
    for x in chosen:
        i = evaluate(l.handlers, x)
        env.check(l.index(x) == i, 'wrong-handler', lambda: 'index(%r) gives %r, the first condition that accepts is number %r' % (x, l.index(x), i))
        # which of the handlers is it
        n = None
        for c, p in zip(_positions(puts), puts):
            if c == i:
                n = p.n
        winner.append(n)
    env.ev('handled by: %r' % (winner,))

    # marks in the expected values
    for t in ts:
        for x, n in zip(chosen, winner):
            if n is not None and real_type[id(t)] == x:
                _mark_real(t, n)
    marks = [0]

    def expected(o):
        v = w.value(node, o)
        c = C.canon(v)
        marks[0] += repr(c).count("('mark', ")
        return ('ok', c)

    def do(l, o):
        return core.call(l.load, deep(o.doc), w.or_anything(node, o.root) if o.extra else ns['R%d' % o.root])
    ops = []
    for i in range(ch.rng_int(3, 8)):
        o = w.good_op(i)
        if ch.flag(20):
            how, o.doc = damage(o.doc, ch)
            o.good = False
            o.how = how
        ops.append(o)
    plain = w.loader(node)
    for o in ch.shuffled(ops):
        if o.good:
            want = expected(o)
        else:
            want = core.outcome_of(do(plain, o))
            if want[0] == 'ok':
                # damaged into something else: same with a fresh one
                want = core.outcome_of(do(custom(), o))
        r = do(l, o)
        env.ops += 1
        env.ev(repr(o), '->', core.show(core.outcome_of(r), 300))
        env.same(core.outcome_of(r), want, 'wrong-handler', lambda: '%r, winners %r of %r' % (o, winner, puts))

    for o in ops:
        # next to a member that takes anything
        o.extra = ch.flag(25)
    fired = failing_conditions(env, custom, lambda l, o: do(l, o), ops, chosen + [ns['R%d' % o.root] for o in ops])
    env.nontrivial = bool(marks[0]) and fired > 0


def _positions(puts):
    """Where in the list each of the handlers ends up."""
    l = []
    for p in puts:
        l.insert(p.pos, p) if p.pos <= len(l) else None
    pos = []
    for i, p in enumerate(puts):
        at = p.pos
        for q in puts[i + 1:]:
            if q.pos <= at:
                at += 1
        pos.append(at)
    return pos


def _mark_real(t, n):
    orig = t.real
    t.real = lambda av, ns: Mark(n, orig(av, ns))


# ---------------------------------------------------------------- conditions that fail

COND_FAILURES = hooks.FAILURES + (ValueError,)


class Wrapped:
    """All the conditions of a list, under control."""
    def __init__(self, obj, skip=()):
        self.calls = 0
        self.fail_at = None
        self.fired = None
        self.make = None
        self.of = {}        # index of the condition: types on which it fails, or says no
        self.raises = True
        self.keep = None
        hs = obj.handlers
        for i in range(len(hs)):
            if i not in skip:
                hs[i] = (self.wrap(i, hs[i][0]), hs[i][1])

    def wrap(self, i, cond):
        def condition(x):
            n = self.calls
            self.calls += 1
            if self.keep is not None:
                self.keep.append((i, x))
            if n == self.fail_at:
                self.fired = self.make()
                raise self.fired
            bad = self.of.get(i)
            if bad is not None and bad(x):
                if self.raises:
                    self.fired = self.make()
                    raise self.fired
                return False
            return cond(x)
        return condition


def in_chain(e, x, depth=0):
    while e is not None and depth < 50:
        if e is x:
            return True
        e = e.__cause__ or e.__context__
        depth += 1
    return False


def failing_conditions(env, custom, do, ops, xs):
    ch = env.ch
    fired = 0
    good = [o for o in ops if o.good]
    if not good:
        return 0
    for _ in range(ch.rng_int(1, 3)):
        # it raises, once, with the setting on
        o = ch.pick(ops)
        want = core.outcome_of(do(custom(), o))
        obj = custom()
        wr = Wrapped(obj)
        before = [ch.pick(ops) for _ in range(ch.draw(3))]
        for b in before:
            do(obj, b)
        # how many evaluations are there to come
        o2 = custom()
        w2 = Wrapped(o2)
        for b in before:
            do(o2, b)
        c0 = w2.calls
        do(o2, o)
        n = w2.calls - c0
        if not n:
            continue
        wr.fail_at = wr.calls + ch.draw(n)
        wr.make = ch.pick(COND_FAILURES)
        r = do(obj, o)
        env.ops += 1
        if wr.fired is not None:
            fired += 1
            env.fault('failure of a condition')
            env.ev('condition fails with %s at %d of %d:' % (type(wr.fired).__name__, wr.fail_at, n), repr(o), '->', core.show(core.outcome_of(r), 200))
            env.check(r[0] == 'exc', 'condition-failure-masked', lambda: '%r: a condition raised %s, evaluation %d, and the result is %s' % (
                o, type(wr.fired).__name__, wr.fail_at, core.show(core.outcome_of(r))))
            env.check(in_chain(r[1], wr.fired), 'condition-failure-lost', lambda: '%r: a condition raised %s and the call raises %s' % (
                o, type(wr.fired).__name__, core.show(core.outcome_of(r))))
        wr.fail_at = None
        env.same(core.outcome_of(do(obj, o)), want, 'wrong-after-failure', lambda: '%r after a failure of a condition' % o)
        for b in before:
            env.same(core.outcome_of(do(obj, b)), core.outcome_of(do(custom(), b)), 'wrong-after-failure', lambda: '%r after a failure of a condition' % b)
    for _ in range(ch.rng_int(1, 2)):
        # it always raises, with the setting off
        a, b = custom(raiseconditionerrors=False), custom(raiseconditionerrors=False)
        seen = []
        w0 = Wrapped(b)
        w0.keep = seen
        some = [ch.pick(ops) for _ in range(ch.rng_int(1, 4))]
        for o in some:
            do(b, o)
        if not seen:
            continue
        b = custom(raiseconditionerrors=False)
        wa, wb = Wrapped(a), Wrapped(b)
        for _ in range(ch.rng_int(1, 3)):
            i, x = ch.pick(seen)
            # one of the evaluated conditions: on this type only, or on all
            if ch.flag(50):
                key = type_key(x)
                bad = lambda y, key=key: type_key(y) == key
            else:
                bad = lambda y: True
            if i == 0 and ch.flag(70):
                continue
            wa.of[i] = wb.of[i] = bad
        wb.raises = False
        wa.make = ch.pick(COND_FAILURES)
        for o in some:
            ra, rb = do(a, o), do(b, o)
            env.ops += 1
            env.ev('conditions %r fail:' % sorted(wa.of), repr(o), '->', core.show(core.outcome_of(ra), 200))
            env.same(core.outcome_of(ra), core.outcome_of(rb), 'wrong-without-handler', lambda: '%r: conditions %r raise %s with raiseconditionerrors off; expected as if false' % (
                o, sorted(wa.of), wa.make.__name__))
        if wa.fired is not None:
            fired += 1
            env.fault('condition that always fails, setting off')
    return fired


def type_key(x):
    return repr(x) if isinstance(x, type) or getattr(x, '__module__', None) == 'typing' or type(x).__module__ in ('typing', 'types') else type(x).__name__


# ---------------------------------------------------------------- dumping

def model_dump(v, top, cfg, hidden):
    """What dumping gives. top(value, function that dumps it as usual) decides about the handlers."""
    def go(v):
        return top(v, lambda: plain(v))

    def items(pairs, v):
        return {hidden.key(type(v), n): go(x) for n, x in pairs if not hidden(type(v), n, x, v)}

    def plain(v):
        t = type(v)
        if v is None or t in (int, bool, float, str):
            return v
        if isinstance(v, tuple) and hasattr(v, '_fields'):
            return items([(n, getattr(v, n)) for n in v._fields], v)
        if hasattr(t, '__dataclass_fields__'):
            return items([(n, getattr(v, n)) for n in t.__dataclass_fields__], v)
        if isinstance(v, (list, tuple, set, frozenset)):
            return [go(i) for i in v]
        if isinstance(v, enum.Enum):
            return go(v.value)
        if isinstance(v, dict):
            return {go(k): go(x) for k, x in v.items()}
        if hasattr(t, '__attrs_attrs__'):
            return items([(a.name, getattr(v, a.name)) for a in t.__attrs_attrs__], v)
        if isinstance(v, (datetime.date, datetime.time)):
            if cfg.isodates:
                return v.isoformat()
            if getattr(v, 'tzinfo', None) is not None:
                raise NotImplementedError('Dumping of tzdata object is not supported')
            if isinstance(v, datetime.time):
                return [v.hour, v.minute, v.second, v.microsecond]
            d = [v.year, v.month, v.day]
            return d if not isinstance(v, datetime.datetime) else d + [v.hour, v.minute, v.second, v.microsecond]
        if isinstance(v, datetime.timedelta):
            return v.total_seconds()
        if isinstance(v, re.Pattern):
            return v.pattern
        return str(v)
    return go(v)


class Hidden:
    """Which fields are hidden, and under which name the others are dumped."""
    def __init__(self, w, ns):
        self.w = w
        self.by = {}
        for c in w.s.classes():
            if c.kind == 'td':
                continue
            d = self.by[ns[c.name]] = {}
            b = c
            while b is not None:
                for name, t, value, metadata, computed in b.noinit:
                    d.setdefault(name, ((metadata or {}).get(w.cfg.mangle_key, name), None if computed else ('expr', value)))
                b = b.base
            for f in c.fields:
                d[f.name] = (f.key(w.cfg), (f, f.default) if f.default else None)
        self.ns = ns

    def key(self, t, n):
        return self.by[t][n][0]

    def __call__(self, t, n, x, v):
        if not self.w.cfg.hidedefault:
            return False
        d = self.by[t][n][1]
        if d is None:
            return False
        if d[0] == 'expr':
            return eval(d[1], self.ns) == x
        f, (kind, av) = d
        if kind == 'factory':
            return x == {'list': [], 'dict': {}, 'set': set()}[av]
        if kind == 'self':
            return x == eval(av, {'self': v})
        return x == f.t.real(av, self.ns)


class SubStr(str):
    pass


class SubInt(int):
    pass


class SubFloat(float):
    pass


class SubList(list):
    pass


class SubDict(dict):
    pass


class SubTuple(tuple):
    pass


class SubDate(datetime.date):
    pass


class StrEnum(str, enum.Enum):
    x = 'y'


class IntEnum(enum.IntEnum):
    x = 5


class Holder(typing.NamedTuple):
    v: typing.Any


SUBS = (SubStr('q'), SubStr(''), SubInt(3), SubFloat(1.5), b'x', 1j, SubList([1, 'x']), SubDict(a=1), SubTuple((1, 2)), SubDate(2020, 1, 2), StrEnum.x, IntEnum.x, range(3))


def nothing(d, v, t):
    return 'no default'


def run_dump(env):
    ch = env.ch
    w = Work(env, draw_cfg(ch, extra=False), odd=True, allow_any=False)
    node = w.node()
    node.activate()
    ns = node.schema
    pristine = w.dumper(node)
    ops = []
    for i in range(ch.rng_int(3, 8)):
        o = w.dump_op(i, bad=0, odd=False)
        if o.how == 'dump' and ch.flag(40):
            o.annotated = True
        ops.append(o)
    found = []

    def collect(v, rest):
        if type(v) not in found:
            found.append(type(v))
        return rest()
    hidden = Hidden(w, ns)
    for o in ops:
        core.call(model_dump, w.value(node, o), collect, w.cfg, hidden)
    chosen = []
    for _ in range(ch.rng_int(1, 3)):
        x = ch.pick(found)
        if x not in chosen:
            chosen.append(x)
    puts = []
    nn = len(pristine.handlers)
    for n in range(ch.rng_int(1, 5)):
        targets = [x for x in chosen if ch.flag(60)] or [ch.pick(chosen)]
        puts.append(Put(n, targets, ch.draw(nn + n + 1) if ch.flag(60) else ch.pick([0, nn + n])))
    if ch.flag(40):
        # values of types derived from the ordinary ones, and of types that only the user knows
        sub = ch.pick(SUBS)
        chosen.append(type(sub))
        n = len(puts)
        puts.append(Put(n, [type(sub)], ch.pick([0, ch.draw(nn + n + 1), nn + n])))
        for p in puts[:-1]:
            if ch.flag(20):
                p.targets.append(type(sub))
        for i in range(ch.rng_int(1, 4)):
            o = w.dump_op(50 + i, bad=0, odd=False)
            o.how = 'dump:derived'
            o.annotated = False
            k = ch.draw(7)
            o.wrap = lambda v, n, k=k: (lambda: sub, lambda: [v, sub], lambda: {'k': sub, 'v': v}, lambda: (sub, 1, [sub]), lambda: ['x', 1, sub],
                                        lambda: [['x', sub], sub], lambda: [Holder(sub), Holder('x')])[k]()
            ops.insert(ch.draw(len(ops) + 1), o)
        hidden.by[Holder] = {'v': ('v', None)}
    env.ev('types: %r' % (chosen,), repr(puts))

    yes, no = ch.pick(TRUTH), ch.pick(UNTRUTH)

    def make(p):
        def cond(v):
            return yes if type(v) in p.targets else no

        def handler(d, v, t):
            f = default_handler(pristine, v) or nothing
            return '%d:%r' % (p.n, f(d, v, t))

        def handler2(d, v):
            return handler(d, v, typing.Any)
        return (cond, handler if p.n % 2 else handler2)

    def custom(**kw):
        d = w.dumper(node)
        for k, v in kw.items():
            setattr(d, k, v)
        insert(ch, d.handlers, puts, make)
        return d
    d = custom()
    pos = _positions(puts)
    marks = [0]

    def top(v, rest):
        i = evaluate(d.handlers, v)
        r = rest() if default_handler(pristine, v) else 'no default'
        for at, p in zip(pos, puts):
            if at == i:
                marks[0] += 1
                return '%d:%r' % (p.n, r)
        return r

    def do(d, o):
        return w.do_dump(node, d, o)
    for o in ch.shuffled(ops):
        v = w.value(node, o)
        i = evaluate(d.handlers, v)
        env.check(d.index(v) == i, 'wrong-handler', lambda: 'index() of %r: %r, not %r' % (type(v), d.index(v), i))
        want = core.outcome(model_dump, v, top, w.cfg, hidden)
        r = do(d, o)
        env.ops += 1
        env.ev(repr(o), '->', core.show(core.outcome_of(r), 300))
        env.same(core.outcome_of(r), want, 'wrong-handler', lambda: '%r with %r' % (o, puts))
    fired = failing_conditions(env, custom, do, ops, [])
    env.nontrivial = bool(marks[0]) and fired > 0
