"""Common workloads: a drawn schema, drawn settings, a pool of operations, and what a brand new object gives."""
import collections
import datetime
import enum
import pathlib
import typing
import uuid

from . import canon as C
from . import core
from .schema import Cfg, Gen, _copy, damage, gen_cfg, gen_json
from .schema import PRELUDE, Basic, Obj, Seq, Dct, Uni, Tup


def deep(v):
    """A copy of a document sharing nothing."""
    t = type(v)
    if t is list:
        return [deep(i) for i in v]
    if t is dict:
        return {k: deep(x) for k, x in v.items()}
    if t is tuple:
        return tuple([deep(i) for i in v])
    if t is set:
        return set(v)
    return v


class Op:
    __slots__ = ('key', 'root', 'doc', 'good', 'how', 'av', 'wrap', 'annotated', 'streamer', 'extra')

    def __init__(self, key, root, doc, good, how, av=None):
        self.key = key
        self.root = root
        self.doc = doc
        self.good = good
        self.how = how
        self.av = av
        self.wrap = None
        self.annotated = False
        self.streamer = self.extra = None

    def __repr__(self):
        return 'R%d <- %s (%s)' % (self.root, C.brief(self.doc, 500), self.how)


class Work:
    """One schema and the operations on it."""
    def __init__(self, env, cfg=None, schema=None, manytypes=0, wild=0, **gen):
        self.env = env
        ch = self.ch = env.ch
        self.cfg = cfg if cfg is not None else draw_cfg(ch)
        self.gen = Gen(ch, self.cfg, **gen)
        self.s = schema(self.gen) if schema else self.gen.schema()
        self.nsane = len(self.s.roots)      # roots of which documents are loaded as known by construction
        if wild and ch.flag(wild):
            # unions of which it is not known which member takes what
            for _ in range(1 + ch.draw(2)):
                u = ch.weighted([(5, self.gen.wild_union), (5, self.gen.ambiguous_union), (2, self.gen.wild_enum), (4, self.gen.lookalikes)])()
                self.s.roots.append(u)
                if isinstance(u, Uni) and ch.flag(25):
                    self.s.roots.append(ch.pick([Seq('list', u, False), Dct(Basic('str'), u, False), Tup([u, u], False)]))
                if isinstance(u, Uni) and ch.flag(60):
                    # the same members in another order: equal, but not the same
                    self.s.roots.append(Uni(ch.shuffled(u.ts), u.style))
        if manytypes:
            self.s.more += 'M = [%s]\n' % ', '.join(many_types(ch, manytypes))
        self.code = self.s.code()
        self.roots = self.s.roots
        self.memo = {}
        env.ev('schema:\n' + self.s.src()[len(PRELUDE):])
        env.ev('settings: %r' % self.cfg)

    def lone(self):
        """No class refers to another one by its name. No sets either: hashes of attrs classes depend on the other classes of that name."""
        return 'et[' not in self.s.src()[len(PRELUDE):] and not any(list(f.t.refs()) for c in self.s.classes() for f in c.fields)

    def node(self):
        return self.env.node(self.code)

    # --- operations

    def good_op(self, key, root=None, d=3):
        r = self.ch.draw(len(self.roots)) if root is None else root
        t = self.roots[r]
        av = t.gen(self.ch, d)
        return Op(key, r, t.doc(av, self.cfg, self.ch), True, 'good', av)

    def op(self, key, bad=35, root=None, wild=True):
        o = self.good_op(key, root)
        if self.ch.flag(bad):
            if self.ch.flag(75):
                how, o.doc = damage(o.doc, self.ch, wild)
                if self.ch.flag(15):
                    how2, o.doc = damage(o.doc, self.ch, wild)
                    how += '+' + how2
            else:
                how, o.doc = 'random', gen_json(self.ch, 3, wild)
            o.how = 'damage:' + how
            o.good = False
        self.env.kinds[o.how.split('+')[0]] += 1
        return o

    def ops(self, n, bad=35, **kw):
        r = []
        for i in range(n):
            r.append(self.op(i, bad, **kw))
        return r

    # --- execution

    def loader(self, node):
        l = node.Loader(**self.cfg.loader_kw())
        if self.s.hooks:
            l.handlers.extend(node.schema['LOAD_HANDLERS'])
        return l

    def dumper(self, node):
        d = node.Dumper(**self.cfg.dumper_kw())
        if self.s.hooks:
            d.handlers.extend(node.schema['DUMP_HANDLERS'])
        return d

    def do_load(self, node, loader, op):
        return core.call(loader.load, deep(op.doc), node.schema['R%d' % op.root])

    def pristine(self, op):
        """What a brand new loader, in a process of its own, gives."""
        r = self.memo.get(op.key)
        if r is None:
            n = self.node()
            n.activate()
            r = self.memo[op.key] = core.outcome_of(self.do_load(n, self.loader(n), op))
        return r

    def or_anything(self, node, r):
        """The union of a root with Any, which takes what is taken for a mismatch."""
        return typing.Union[node.schema['R%d' % r], typing.Any]

    # --- dumping

    def value(self, node, op):
        v = self.roots[op.root].real(op.av, node.schema)
        if op.wrap:
            v = op.wrap(v, node)
        return v

    def dump_op(self, key, bad=20, root=None, d=3, odd=True, derived=0):
        ch = self.ch
        r = ch.draw(len(self.roots)) if root is None else root
        av = self.roots[r].gen(ch, d)
        o = Op(key, r, av, True, 'dump', av)
        if ch.flag(bad):
            k = ch.draw(5)
            o.good = False
            cs = self.s.classes()
            if cs and ch.flag(30):
                # the class, instead of an instance
                c = ch.pick(cs).name
                U = lambda n: n.schema[c]      # noqa: E731
                o.how = 'dump:class'
            else:
                U = lambda n: Unsupported()     # noqa: E731
                o.how = 'dump:unsupported'
            o.how += (' in list', ' in dict', ' alone', ' in set', ' in tuple')[k]
            o.wrap = (lambda v, n: [v, U(n)], lambda v, n: {'a': v, 'b': U(n)}, lambda v, n: U(n),
                      lambda v, n: frozenset([1, Unsupported()]), lambda v, n: (v, (U(n), 1)))[k]
        elif derived and ch.flag(derived):
            # instances of classes derived from the ones in the annotations
            o.how = 'dump:derived'
            k = ch.rng_int(1, 4095)
            o.annotated = ch.flag(50)
            o.wrap = lambda v, n: relative(v, [k], n.schema.setdefault('_subs', {}))
        elif odd and ch.flag(8):
            k = ch.draw(len(ODD_KEYS))
            o.how = 'dump:odd keys'
            o.wrap = lambda v, n: {0: v, ODD_KEYS[k]: v}
        elif ch.flag(25):
            k = ch.draw(4)
            o.how = 'dump:nested'
            o.wrap = (lambda v, n: [v, v], lambda v, n: {'k': v}, lambda v, n: (v, 1), lambda v, n: {1: [v]})[k]
        elif ch.flag(30):
            o.annotated = True
        self.env.kinds[o.how] += 1
        return o

    def twin_dump_op(self, o, k):
        r = Op('twin %s' % o.key, o.root, o.doc, o.good, 'dump:twin', o.av)
        r.annotated = o.annotated
        wrap = o.wrap
        r.wrap = (lambda v, n: twin(wrap(v, n), k)) if wrap else (lambda v, n: twin(v, k))
        return r

    def do_dump(self, node, dumper, op, value=None):
        v = self.value(node, op) if value is None else value
        if op.annotated:
            return core.call(dumper.dump, v, node.schema['R%d' % op.root])
        return core.call(dumper.dump, v)

    def pristine_dump(self, op):
        r = self.memo.get(op.key)
        if r is None:
            n = self.node()
            n.activate()
            r = self.memo[op.key] = core.outcome_of(self.do_dump(n, self.dumper(n), op))
        return r


class SubStr(str):
    pass


class SubInt(int):
    pass


class SubFloat(float):
    pass


class SubList(list):
    pass


class SubDict(dict):
    pass


class SubDate(datetime.date):
    pass


class StrMember(str, enum.Enum):
    x = 'y'


class IntMember(enum.IntEnum):
    x = 5


class Pair(typing.NamedTuple):
    a: typing.Any
    b: typing.Any = 0


def relative(v, bits, subs, depth=0):
    """A copy of a value, with some parts that are instances of derived classes."""
    def yes():
        b = bits[0] & 1
        bits[0] = bits[0] >> 1 | b << 11
        return b
    t = type(v)
    if depth > 12:
        return v
    go = lambda x: relative(x, bits, subs, depth + 1)   # noqa: E731
    if t is str:
        return v if not yes() else SubStr(v) if yes() else StrMember.x
    if t is int:
        return v if not yes() else SubInt(v) if yes() else IntMember.x if yes() else True
    if t is float:
        return v if not yes() else SubFloat(v) if yes() else 3
    if t is datetime.date:
        return v if not yes() else datetime.datetime(v.year, v.month, v.day, 1) if yes() else SubDate(v.year, v.month, v.day)
    if t is list:
        r = [go(i) for i in v]
        return SubList(r) if yes() else r
    if t is dict:
        r = {x: go(i) for x, i in v.items()}
        return SubDict(r) if yes() else collections.OrderedDict(r) if yes() else r
    if t is tuple:
        r = tuple([go(i) for i in v])
        return Pair(*r) if len(r) == 2 and yes() else r
    if isinstance(v, tuple) and hasattr(t, '_fields'):
        v = v._replace(**{n: go(getattr(v, n)) for n in t._fields})
        return derived(t, subs)(*v) if yes() else v
    if hasattr(t, '__dataclass_fields__') or hasattr(t, '__attrs_attrs__'):
        for n in list(t.__dataclass_fields__) if hasattr(t, '__dataclass_fields__') else [a.name for a in t.__attrs_attrs__]:
            if hasattr(v, n):
                try:
                    object.__setattr__(v, n, go(getattr(v, n)))
                except AttributeError:
                    pass
        if yes():
            try:
                object.__setattr__(v, '__class__', derived(t, subs))
            except TypeError:
                pass
    return v


def derived(t, subs):
    r = subs.get(t)
    if r is None:
        r = subs[t] = type('Sub' + t.__name__, (t,), {'__slots__': ()} if hasattr(t, '__slots__') and not hasattr(t, '__dict__') else {})
    return r


def twin(v, k, depth=0):
    """A value that is equal, or nearly so, but not the same: True for 1, another offset of the same instant..."""
    t = type(v)
    if depth > 12:
        return v
    if t is bool:
        return int(v) if k % 2 else float(v)
    if t is int:
        return bool(v) if v in (0, 1) and k % 2 else float(v) if abs(v) < 1 << 53 else v
    if t is float:
        return -v if v == 0 else int(v) if v == v and abs(v) < 1 << 53 and v == int(v) else v
    if t in (datetime.datetime, datetime.time) and v.tzinfo is not None:
        if t is datetime.datetime:
            try:
                return v.astimezone(datetime.timezone(datetime.timedelta(minutes=90 * (k % 7 - 3))))
            except OverflowError:
                return v
        o = v.utcoffset() + datetime.timedelta(minutes=60)
        if v.hour < 23 and abs(o) < datetime.timedelta(hours=24):
            return v.replace(hour=v.hour + 1, tzinfo=datetime.timezone(o))
        return v
    if t is list:
        return [twin(i, k, depth + 1) for i in v]
    if t is tuple:
        return tuple([twin(i, k, depth + 1) for i in v])
    if t is dict:
        return {x: twin(i, k, depth + 1) for x, i in v.items()}
    if t is set:
        return frozenset(v)
    if t is frozenset:
        return set(v)
    if isinstance(v, tuple) and hasattr(t, '_fields'):
        return v._replace(**{n: twin(getattr(v, n), k, depth + 1) for n in t._fields})
    if hasattr(t, '__dataclass_fields__') or hasattr(t, '__attrs_attrs__'):
        for n in list(t.__dataclass_fields__) if hasattr(t, '__dataclass_fields__') else [a.name for a in t.__attrs_attrs__]:
            if hasattr(v, n):
                try:
                    object.__setattr__(v, n, twin(getattr(v, n), k, depth + 1))
                except AttributeError:
                    pass
        return v
    return v


ODD_KEYS = (datetime.date(2020, 1, 2), datetime.datetime(2020, 1, 2, 3, 4, 5), datetime.time(1, 2), (1, 2), pathlib.PurePosixPath('/a'), None, 1.5,
            datetime.timedelta(1), uuid.UUID(int=7), frozenset([1]), b'x', True)


class Unsupported:
    """No handler takes this."""
    def __hash__(self):
        return 7    # sets of these are iterated in the same order in all processes

    def __repr__(self):
        return 'Unsupported()'


def draw_cfg(ch, json=None, isodates=None, extra=True):
    cfg = gen_cfg(ch, json=ch.flag(50) if json is None else json)
    if isodates is None and not cfg.json and ch.flag(15):
        cfg.isodates = False
    if extra:
        if ch.flag(6):
            cfg.extra['uniondebugconflict'] = True
        if ch.flag(6):
            cfg.extra['pep563'] = True
        if ch.flag(6):
            cfg.extra['raiseconditionerrors'] = False
        if ch.flag(5):
            cfg.extra['dictequivalence'] = False
        if not cfg.json and ch.flag(12):
            # (the bytes() of a number are that many zeros)
            cfg.more = (complex,) if cfg.basiccast else (bytes, complex)
    return cfg


def many_types(ch, n):
    """Sources of n different types, and a way to load into each: all load from [] / {} / None"""
    r = []
    a = ch.draw(50)
    for i in range(n):
        k = i % 5
        m = a + i
        r.append((
            'List[Literal[%d]]', 'Dict[str, Literal[%d]]', 'Optional[Literal[%d]]', 'Tuple[Literal[%d], ...]', 'Set[Literal[%d]]')[k] % m)
    return r


EMPTY = ([], {}, None, [], [])


def become(a, b, used=None):
    """Gives an object the content of another one, as a program does that edits its state in place. Returns the object to use."""
    used = set() if used is None else used
    t = type(a)
    if t is not type(b) or id(a) in used:
        # (something that is there twice can't become two things)
        return b
    used.add(id(a))
    if t is list:
        n = min(len(a), len(b))
        for i in range(n):
            a[i] = become(a[i], b[i], used)
        a[n:] = b[n:]
        return a
    if t is dict:
        new = {k: become(a[k], v, used) if k in a else v for k, v in b.items()}
        a.clear()
        a.update(new)
        return a
    fields = getattr(t, '__dataclass_fields__', None)
    if fields is not None:
        if t.__dataclass_params__.frozen:
            return b
        names = list(fields)
    elif hasattr(t, '__attrs_attrs__'):
        if t.__setattr__ is not object.__setattr__ and 'frozen' in getattr(t.__setattr__, '__name__', ''):
            return b
        names = [f.name for f in t.__attrs_attrs__]
    else:
        return b
    if t.__hash__ is not None:
        # it may be the key of a dictionary
        return b
    for n in names:
        try:
            v = getattr(b, n)
        except AttributeError:
            return b
        object.__setattr__(a, n, become(getattr(a, n, None), v, used))
    return a
