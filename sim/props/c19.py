"""C19: forward references and recursive types."""
import sys
import typing

from .. import core, hooks
from .. import canon as C
from ..schema import Basic, Cls, Dct, Field, LitT, NewT, Obj, Seq, Tup, Uni, damage, gen_json
from ..work import Op, Work, deep, draw_cfg
from .c05 import KINDS, pick_instant

BLOCK = 80
RUNS = {'quick': 3600, 'thorough': 120000}
RULE = ('one run: 1-4 drawn classes of any kind that refer to themselves and to each other by name, inside of optionals, containers and unions; a loader, '
        'with frefs of the user or without, loads 6-20 drawn documents - up to 280 levels deep, good, damaged, of the classes, of containers of them, of '
        'other types - in turns, from 2-3 threads, or cut by an asynchronous exception; what a brand new loader resolves must be loaded as the value '
        'known by construction; names given by the user win; non-trivial: a reference was resolved after another load, or in another thread')
STUBS = 'thread scheduling and asynchronous exceptions in part of the runs'
ASSUMPTIONS = ['types with the same name are not used together']


def outcome_of(r):
    if r[0] == 'exc' and hasattr(r[1], 'trace') and len(r[1].trace) + len(r[1].exceptions) > 0 and sys.getrecursionlimit() > 15000:
        # Errors of very deep data are too big to be looked at
        return ('err', (type(r[1]).__name__, tuple(str(a) for a in r[1].args), (), None, None, ()))
    return core.outcome_of(r)


class Ref(Obj):
    """By name."""
    def __init__(self, name, cls, to=None):
        Obj.__init__(self, cls, True)
        self.name = name
        self.to = to or cls     # the class, or the NewType of it, with that name

    def src(self):
        return repr(self.name)

    def refs(self):
        yield self.name


def parts(t):
    if isinstance(t, NewT):
        return [t.t]
    if isinstance(t, (Uni, Tup)):
        return t.ts
    if isinstance(t, Seq):
        return [t.t]
    if isinstance(t, Dct):
        return [t.v]
    return []


def refers(t):
    """Is there an object inside?"""
    return isinstance(t, Obj) or any(refers(p) for p in parts(t))


def named(t):
    """The classes that are referred to by name in a type."""
    if isinstance(t, Ref):
        return [t.to]
    return [c for p in parts(t) for c in named(p)]


def closed(t, av, above):
    """Do all names that are met refer to classes that are being loaded, so that they can't be unknown?"""
    if isinstance(t, NewT):
        return closed(t.t, av, above + [t])
    if isinstance(t, Obj):
        above = above + [t.cls]
        return all(x in above for f in t.cls.fields for x in named(f.t)) and all(closed(f.t, av[f.name], above) for f in t.cls.fields if f.name in av)
    if isinstance(t, Uni):
        return all(x in above for m in t.ts for x in named(m)) and closed(t.ts[av[0]], av[1], above) and (
            all(closed(Obj(x), {}, above) for m in t.ts for x in classes_in(m)))
    if isinstance(t, Seq) and refers(t):
        return all(closed(t.t, v, above) for v in av)
    if isinstance(t, Dct) and refers(t):
        return all(closed(t.v, v, above) for _, v in av)
    if isinstance(t, Tup):
        return all(closed(x, v, above) for x, v in zip(t.ts, av))
    return True


def classes_in(t):
    if isinstance(t, Obj):
        return [t.cls]
    return [c for p in parts(t) for c in classes_in(p)]


def grow(ch, t, d):
    """A value with a branch that is d levels deep."""
    if isinstance(t, NewT):
        return grow(ch, t.t, d)
    if isinstance(t, Obj):
        deepones = [f.name for f in t.cls.fields if refers(f.t)]
        which = ch.pick(deepones) if deepones else None
        r = {}
        for f in t.cls.fields:
            if f.name == which and d > 0:
                r[f.name] = grow(ch, f.t, d - 1)
            elif f.required() or not refers(f.t) and ch.flag(50):
                r[f.name] = grow(ch, f.t, 0)
        return r
    if isinstance(t, Uni):
        objs = [i for i, m in enumerate(t.ts) if refers(m)]
        if objs and (d > 0 or len(objs) == len(t.ts)):
            i = ch.pick(objs)
        else:
            i = ch.pick([i for i in range(len(t.ts)) if i not in objs])
        return [i, grow(ch, t.ts[i], d)]
    if isinstance(t, Seq) and refers(t.t):
        if d <= 0 and not ch.flag(20):
            return []
        r = [grow(ch, t.t, d)]
        if ch.flag(25):
            r.insert(ch.draw(2), grow(ch, t.t, 0))
        return r
    if isinstance(t, Dct) and refers(t.v):
        if d <= 0:
            return []
        r = [('k', grow(ch, t.v, d))]
        if ch.flag(25):
            r.append(('z', grow(ch, t.v, 0)))
        return r
    if isinstance(t, Tup) and refers(t):
        return [grow(ch, x, d) for x in t.ts]
    return t.gen(ch, 1)


def gen_schema(g, ch, override):
    n = ch.weighted([(3, 1), (4, 2), (3, 3), (1, 4)])
    cs = []
    tagged = ch.flag(50)
    for i in range(n):
        c = Cls('C%d' % (i + 1), ch.pick(g.kinds), '')
        c.style = g.style(c.kind).replace('nontotal', '')
        cs.append(c)
    if not override and not g.cfg.extra.get('pep563') and ch.flag(20):
        # names that are names of other things in typing
        for c, label in zip(cs, ch.shuffled(['List', 'Dict', 'Set', 'Tuple', 'Union', 'Optional', 'Literal', 'FrozenSet', 'list', 'Node'])):
            c.label = label
    news = []
    if not override and ch.flag(25):
        # names of NewTypes
        for c in cs:
            if ch.flag(60):
                news.append(NewT('NT%s' % c.name, Obj(c)))
    only_self = ch.flag(35)
    for i, c in enumerate(cs):
        fs = []
        if tagged:
            fs.append(Field('tag', LitT([c.name.lower()])))
        for k in range(ch.draw(3)):
            f = Field('b%d' % k, g.hashable_type(0))
            fs.append(f)
        for k in range(ch.weighted([(5, 1), (3, 2), (1, 3)])):
            to = c if only_self or ch.flag(50) else ch.pick(cs)
            if cs.index(to) < i and ch.flag(50):
                me = Obj(to)
            else:
                me = Ref(to.label or to.name, override.get(to.name, None) or to)
                nts = [x for x in news if x.t.cls is to]
                if nts and ch.flag(60):
                    me = Ref(nts[0].name, to, nts[0])
            none = Basic('none')
            form = ch.draw(8)
            t = [lambda: Uni([me, none], 'Union'), lambda: Seq('list', me, False), lambda: Dct(Basic('str'), me, False),
                 lambda: Seq('tuple', me, False), lambda: Uni([Seq('list', me, False), Basic('int'), none], 'Union'),
                 lambda: Seq('list', Uni([none, me], 'Union'), False), lambda: Uni([Tup([Basic('int'), me], False), none], 'Union'),
                 lambda: Uni([Dct(Basic('str'), Seq('list', me, False), False), none], 'Union')][form]()
            fs.append(Field('r%d' % k, t))
        for f in fs:
            if f.name != 'tag' and c.kind != 'td' and ch.flag(40):
                if refers(f.t):
                    if isinstance(f.t, Uni):
                        f.default = ('lit', [[x.src() for x in f.t.ts].index('None'), None])
                    elif isinstance(f.t, Seq) and f.t.kind == 'list' and c.kind != 'nt':
                        f.default = ('factory', 'list')
                else:
                    g.force_default(c, f)
            if c.kind == 'td':
                f.optional = f.name != 'tag' and ch.flag(30)
            elif c.kind in ('dc', 'attrs') and f.name != 'tag' and g.mangles and ch.flag(15):
                f.mangle = {'name': f.name + '-key'}
        if c.kind != 'td':
            fs.sort(key=lambda f: f.default is not None)
        c.fields = fs
        g.s.defs.append(c)
    roots = g.s.roots
    for nt in news:
        g.s.defs.append(nt)
        roots.append(nt)
    for c in cs:
        roots.append(Obj(c))
    for _ in range(ch.draw(4)):
        o = Obj(ch.pick(cs))
        form = ch.draw(7)
        if form == 6:
            nt = NewT('NT%d' % len(roots), o)
            g.s.defs.append(nt)
            roots.append(nt)
        elif form == 5 and tagged and n > 1:
            roots.append(Uni([Obj(c) for c in ch.shuffled(cs)], 'Union'))
        else:
            roots.append([Seq('list', o, ch.flag(50)), Dct(Basic('str'), o, ch.flag(50)), Uni([o, Basic('none')], 'Optional'), Tup([Basic('int'), o], ch.flag(50)),
                          Seq('list', Uni([Basic('none'), o], 'Union'), False), Seq('tuple', o, False)][form if form < 6 else 0])
    if ch.flag(40):
        roots.append(g.type(1))
    return g.s


def run(env):
    # Very deep data, in some runs
    far = env.ch.flag(5)
    limit = sys.getrecursionlimit()
    if far:
        sys.setrecursionlimit(limit + 20000)
    try:
        simulate(env, far)
    finally:
        sys.setrecursionlimit(limit)


def simulate(env, far):
    ch = env.ch
    cfg = draw_cfg(ch, extra=False)
    user = ch.weighted([(8, 'empty'), (2, 'all'), (2, 'override'), (1, 'disabled')])
    if ch.flag(10) and user != 'override':
        cfg.extra['pep563'] = True
    override = {}
    other = Cls('Other', 'dc', '')
    other.fields = [Field('x', Basic('int')), Field('tag', Basic('str'), ('lit', 'q'))]

    def schema(g):
        if user == 'override':
            g.s.defs.append(other)
            override['C1'] = other
        return gen_schema(g, ch, override)
    w = Work(env, cfg, schema, recursive=False)

    def loader(node):
        l = w.loader(node)
        ns = node.schema
        if user == 'all':
            l.frefs = {c.label or c.name: ns[c.name] for c in w.s.classes()}
            l.frefs.update({d.name: ns[d.name] for d in w.s.defs if isinstance(d, NewT)})
        elif user == 'override':
            l.frefs = {'C1': ns['Other']}
        elif user == 'disabled':
            l.frefs = None
        return l
    env.ev('frefs: ' + user)
    env.kinds['frefs ' + user] += 1
    mode = 'turns' if far else ch.weighted([(5, 'turns'), (3, 'threads'), (3, 'interrupts')])
    depths = [(3, 0), (4, 1), (4, 2), (3, 4)] + ([(1, 10), (1, 30)] if mode == 'turns' else [(1, 6)])
    ops = []
    for k in range(ch.rng_int(6, 16)):
        r = ch.draw(len(w.roots))
        t = w.roots[r]
        av = grow(ch, t, ch.pick([70, 110, 180, 280]) if far and k % 4 == 1 else ch.weighted(depths))
        o = Op(k, r, t.doc(av, w.cfg, ch), True, 'good', av)
        if ch.flag(30) and not (far and k % 4 == 1):
            how, o.doc = damage(o.doc, ch) if ch.flag(80) else ('random', gen_json(ch, 2))
            o.good = False
            o.how = 'damage:' + how
        env.kinds[o.how] += 1
        ops.append(o)
    memo = {}

    def pristine(o):
        if o.key not in memo:
            n = w.node()
            n.activate()
            memo[o.key] = outcome_of(core.call(loader(n).load, deep(o.doc), n.schema['R%d' % o.root]))
        return memo[o.key]
    for o in ops:
        pristine(o)
    node = w.node()
    node.activate()
    ns = node.schema
    l = loader(node)

    def verify(o, r, what):
        env.ops += 1
        got = outcome_of(r)
        want = pristine(o)
        env.ev(what, repr(o), '->', core.show(got, 200))
        if o.good:
            value = ('ok', C.canon(w.value(node, o)))
            if want[0] == 'ok':
                env.same(want, value, 'wrong-type', lambda: '%r on a brand new loader' % o)
                env.same(got, value, 'not-resolved', lambda: '%s %r' % (what, o))
                env.nontrivial = True
            else:
                if user in ('empty', 'all') and not cfg.extra.get('pep563') and closed(w.roots[o.root], o.av, []):
                    env.fail('not-resolved', '%s %r gave %s on a brand new loader, though it only refers to the classes it is made of' % (what, o, core.show(want, 1500)))
                env.check(got == value or got[0] == 'err' and isinstance(r[1], node.exc.TypedloadException), 'wrong-type', lambda: '%s %r gave %s' % (what, o, core.show(got, 1500)))
                if user != 'disabled':
                    env.probe('unknown to a brand new loader')
                if got[0] == 'ok':
                    env.probe('resolved later')
                elif user == 'disabled':
                    env.same(got, want, 'not-resolved', lambda: '%s %r' % (what, o))
                elif user == 'all' or cfg.extra.get('pep563'):
                    # there is nothing that it cannot know, apart from attrs
                    env.check(user != 'all', 'not-resolved', lambda: '%s %r gave %s, though all names were given' % (what, o, core.show(got, 1500)))
        elif got[0] != 'ok':
            env.check(isinstance(r[1], node.exc.TypedloadException), 'wrong-exception', lambda: '%s %r gave %s' % (what, o, core.show(got, 1500)))

    def same_names():
        if user == 'override':
            env.check(l.frefs.get('C1') is ns['Other'], 'overridden', lambda: 'the name C1 given by the user is now %r' % l.frefs.get('C1'))
        elif user == 'disabled':
            env.check(l.frefs is None, 'overridden', 'frefs is no longer None')
    if mode == 'threads':
        nt = 2 + ch.draw(2)
        world = env.world(ch.pick(['few', 'mid', 'stores', 'fine']), ch.flag(10))
        parts_ = [ops[i::nt][:4] for i in range(nt)]
        rs = [[] for _ in parts_]

        def actor(i):
            def fn(a):
                for o in parts_[i]:
                    a.begin()
                    try:
                        rs[i].append(core.call(l.load, o.doc, ns['R%d' % o.root]))
                    finally:
                        a.end()
            return fn
        try:
            world.run_threads([actor(i) for i in range(nt)])
        finally:
            env.done_world(world)
        env.ilv = world.interleaving()
        env.fault('preemption', world.switches)
        for i, p in enumerate(parts_):
            for o, r in zip(p, rs[i]):
                verify(o, r, 'thread %d:' % i)
    crowd = ch.draw(len(ops)) if ch.flag(10) else -1
    for i, o in enumerate(ops):
        t = ns['R%d' % o.root]
        if i == crowd:
            # many other names
            n = ch.pick([40, 130, 300, 1100])
            kind = ch.draw(3)
            env.ev('loading %d other types' % n)
            env.fault('many other names', n)
            for k in range(n):
                name = 'Other%d' % k
                other_t = typing.NewType(name, int) if kind == 0 or kind == 2 and k % 2 else typing.NamedTuple(name, [('a', int)])
                r = core.call(l.load, 1 if isinstance(other_t, typing.NewType) else {'a': 1}, other_t)
                env.check(r[0] == 'ok', 'not-loaded', lambda: 'type number %d: %s' % (k, core.show(outcome_of(r))))
        if mode == 'interrupts' and ch.flag(35):
            n2 = w.node()
            n2.activate()
            l2 = loader(n2)
            world = env.world('sites')
            world.main.begin()
            try:
                core.call(l2.load, deep(o.doc), n2.schema['R%d' % o.root])
            finally:
                world.main.end()
            env.done_world(world)
            total, sites = world.main.count, list(world.sites)
            node.activate()
            exc = ch.pick(KINDS + (RecursionError,))('injected')
            world = env.world('few')
            world.main.begin(fault_at=pick_instant(ch, total, sites), fault_exc=exc)
            try:
                r = core.call(l.load, deep(o.doc), t)
            finally:
                world.main.end()
            env.done_world(world)
            if world.main.fault_fired:
                env.fault(type(exc).__name__)
                env.check(r[1] is exc or isinstance(exc, RecursionError), 'swallowed', lambda: '%r gave %s' % (exc, core.show(outcome_of(r))))
                env.ev('interrupted:', repr(o))
                continue
        else:
            r = core.call(l.load, deep(o.doc), t)
        verify(o, r, '%d:' % i)
        same_names()
