"""C20: the amount of work."""
import time

from .. import core
from .. import canon as C
from ..schema import Basic, Cls, Dct, EnumT, Field, LitT, NewT, Obj, Seq, Strc, Tup, Uni, get, paths, put
from ..work import Work, deep, draw_cfg
from .c19 import Ref, refers

BLOCK = 80
RUNS = {'quick': 2200, 'thorough': 50000}
RULE = ('one run: drawn recursive classes, deeply nested container types or wide data; documents (or values) of a drawn shape in sizes n, 2n and 4n - in depth, '
        'or in width - good, or damaged at the bottom, in the middle, in the last element, or in many places; the instructions executed by the library are '
        'counted: twice the depth may cost 4 times as much, twice the width twice as much, the same call again costs the same, and after '
        'damage the good document costs what it did; non-trivial: a damaged document was refused at three sizes')
STUBS = ('none; the amount of work is counted in instructions by the simulator, so it is the same in every execution; in 3% of the runs, on '
         'very large data, it is the processor time, with bounds that are many times what it takes')
ASSUMPTIONS = ['work done inside of C functions and of the standard library is only seen in the runs that take the processor time',
               'in unions, at most one member can hold the data deep inside, or the members are told apart by a tag that comes first']

LIMIT = 2_500_000
POISON = ('zz!(', 987654321987654321987, {'zz!': 5}, None, [], [[]])


class Shape:
    """Always the same decisions, so that documents of all sizes look the same."""
    def __init__(self, ch):
        self.ch = ch
        self.memo = {}
        self.side = ch.draw(3)      # siblings of the deep element
        self.last = ch.flag(60)

    def pick(self, key, options):
        k = self.memo.get(key)
        if k is None:
            k = self.memo[key] = self.ch.draw(len(options))
        return options[k]

    def leaf(self, t):
        k = self.memo.get(('leaf', id(t)))
        if k is None:
            k = self.memo[('leaf', id(t))] = t.gen(self.ch, 0)
        return k

    def grow(self, t, d, w):
        """A value d levels deep, its containers w elements wide at the bottom."""
        if isinstance(t, NewT):
            return self.grow(t.t, d, w)
        if isinstance(t, Obj):
            fs = [f for f in t.cls.fields if refers(f.t)]
            which = self.pick(id(t.cls), fs).name if fs else None
            return {f.name: self.grow(f.t, d - 1 if f.name == which else 0, w) for f in t.cls.fields if f.name == which or f.required() or not refers(f.t)}
        if isinstance(t, Uni):
            objs = [i for i, m in enumerate(t.ts) if refers(m)]
            if objs and d > 0:
                i = self.pick(id(t), objs)
            else:
                i = next((i for i in range(len(t.ts)) if i not in objs), 0)
            return [i, self.grow(t.ts[i], d, w)]
        if isinstance(t, Seq):
            if not refers(t.t):
                return [self.grow(t.t, d - 1, w) for _ in range(w)]
            if d <= 0:
                return []
            r = [self.grow(t.t, 0, w) for _ in range(self.side)]
            r.insert(len(r) if self.last else 0, self.grow(t.t, d, w))
            return r
        if isinstance(t, Dct):
            if not refers(t.v):
                return [('k%d' % i, self.grow(t.v, d - 1, w)) for i in range(w)]
            if d <= 0:
                return []
            r = [('s%d' % i, self.grow(t.v, 0, w)) for i in range(self.side)]
            r.insert(len(r) if self.last else 0, ('deep', self.grow(t.v, d, w)))
            return r
        if isinstance(t, Tup):
            return [self.grow(x, d, w) for x in t.ts]
        return self.leaf(t)


def rec_schema(g, ch):
    """Recursive classes."""
    n = ch.weighted([(4, 1), (3, 2)])
    tagged = ch.flag(40)
    defaults = ch.flag(50)
    cs = []
    for i in range(n if not tagged else n + 1):
        c = Cls('C%d' % (i + 1), ch.pick(g.kinds), '')
        c.style = g.style(c.kind).replace('nontotal', '')
        cs.append(c)
    for i, c in enumerate(cs):
        fs = []
        if tagged:
            fs.append(Field('tag', LitT([c.name.lower()])))
        for k in range(ch.draw(4)):
            fs.append(Field('b%d' % k, ch.pick([Basic('int'), Basic('str'), g.enum(), Uni([Basic('int'), Basic('none')], 'Optional'), Seq('list', Basic('int'), False),
                                                Seq('tuple', Uni([Basic('str'), Basic('int')], 'Union'), False), Dct(Basic('str'), Basic('float'), False),
                                                Strc('date'), Strc('Path'), Seq('set', Basic('str'), False)])))
        for k in range(ch.weighted([(4, 1), (1, 2)])):
            to = [c, cs[(i + 1) % len(cs)]][ch.draw(2)]
            me = Ref(to.name, to)
            if tagged and ch.flag(50):
                me = Uni([Ref(x.name, x) for x in cs], 'Union')
            none = Basic('none')
            members = me.ts if isinstance(me, Uni) else [me]
            form = ch.draw(7)
            t = [lambda: Uni(members + [none], 'Union'), lambda: Seq('list', me, False), lambda: Dct(Basic('str'), me, False),
                 lambda: Seq('tuple', me, False), lambda: Uni([Seq('list', me, False), Basic('int'), none], 'Union'),
                 lambda: Seq('list', Uni(members + [none], 'Union'), False), lambda: Uni([Tup([Basic('int'), me], False), none], 'Union')][form]()
            fs.append(Field('r%d' % k, t))
        if c.kind in ('dc', 'attrs') and g.mangles and ch.flag(30):
            f = ch.pick(fs)
            if f.name != 'tag':
                f.mangle = {'name': f.name + '-key'}
        if c.kind != 'td' and defaults:
            for f in fs:
                if f.name == 'tag' or ch.flag(30):
                    continue
                if isinstance(f.t, Uni) and any(x.src() == 'None' for x in f.t.ts):
                    f.default = ('lit', [[x.src() for x in f.t.ts].index('None'), None])
                elif isinstance(f.t, Seq) and f.t.kind == 'list' and c.kind != 'nt':
                    f.default = ('factory', 'list')
            fs.sort(key=lambda f: f.default is not None)
        c.fields = fs
        g.s.defs.append(c)
    r = Obj(cs[0])
    g.s.roots.append(ch.pick([r, r, Seq('list', r, False), Uni([r, Basic('none')], 'Optional')]))
    if tagged:
        g.s.roots.append(Uni([Obj(c) for c in cs], 'Union'))
    return cs


def nested(g, ch, d, unit):
    """A type that repeats the unit, and is d levels deep."""
    t = unit[-1](None)
    for i in range(d):
        t = unit[i % (len(unit) - 1)](t)
    return t


def units(g, ch):
    r = []
    for _ in range(ch.rng_int(1, 3)):
        r.append(ch.pick([lambda t: Seq('list', t, False), lambda t: Dct(Basic('str'), t, False), lambda t: Tup([Basic('int'), t], False),
                          lambda t: Seq('tuple', t, False), lambda t: Uni([Basic('none'), t], 'Union') if not isinstance(t, Uni) else Seq('list', t, False),
                          lambda t: newtype(g, t), lambda t: wrapper(g, t, 'dc'), lambda t: wrapper(g, t, 'nt'), lambda t: wrapper(g, t, 'td'), lambda t: wrapper(g, t, 'attrs')]))
    leaf = ch.pick([lambda: Basic('int'), lambda: LitT(['a', 'b']), lambda: Strc('UUID'), lambda: EnumT('En', [('A', 'x'), ('B', 'y')])])
    one = leaf()
    if isinstance(one, EnumT):
        g.s.defs.append(one)
    r.append(lambda t: one)
    return r


def newtype(g, t):
    n = NewT(g.fresh('N'), t)
    g.s.defs.append(n)
    return n


def wrapper(g, t, kind):
    c = Cls(g.fresh('W'), kind, '')
    if kind == 'attrs':
        c.style = 'auto_attribs'
    c.fields = [Field('v', t)]
    g.s.defs.append(c)
    return Obj(c)


class Chain:
    """grow() for types that are as deep as the data."""
    def grow(self, shape, t):
        if isinstance(t, NewT):
            return self.grow(shape, t.t)
        if isinstance(t, Obj):
            return {'v': self.grow(shape, t.cls.fields[0].t)}
        if isinstance(t, Uni):
            return [1, self.grow(shape, t.ts[1])]
        if isinstance(t, Seq):
            return [self.grow(shape, t.t)]
        if isinstance(t, Dct):
            return [('k', self.grow(shape, t.v))]
        if isinstance(t, Tup):
            return [3, self.grow(shape, t.ts[1])]
        return shape.leaf(t)


BULK = 3000


def cpu(fn):
    s = time.process_time()
    r = fn()
    return time.process_time() - s, r


def bulk(env):
    """Great numbers of elements, or of calls: what is done inside of C functions shows up in the processor time.

    16 times as much may take 64 times as long, and a second more, at best of 3: what grows with the square takes 256 times as long."""
    ch = env.ch
    cfg = draw_cfg(ch, json=True, extra=False)
    forms = ['list', 'tuple', 'set', 'frozenset', 'dict', 'fields', 'last']
    form = ch.pick(forms + ['calls'])

    def schema(g):
        c = Cls('C1', ch.pick(['dc', 'attrs', 'nt', 'td']), '')
        c.style = g.style(c.kind).replace('nontotal', '')
        c.fields = [Field('a', Basic('int')), Field('b', Uni([Basic('str'), Basic('none')], 'Optional'))]
        if c.kind in ('dc', 'attrs') and ch.flag(50):
            c.fields[0].mangle = {cfg.mangle_key: 'a-key'}
        g.s.defs.append(c)
        e = Basic('str') if form in ('set', 'frozenset') else ch.pick([Basic('int'), Uni([Basic('int'), Basic('none')], 'Optional'), Obj(c), Tup([Basic('int'), Basic('str')], False), Strc('date'),
                                                                      LitT(['x', 'y']), Seq('list', Basic('int'), False)])
        g.s.roots.append(Obj(c) if form == 'fields' else e if form == 'calls' else Dct(Basic('str'), e, False) if form == 'dict' else Seq(form if form != 'last' else 'list', e, False))
        return g.s
    w = Work(env, cfg, schema, recursive=False, allow_any=False)
    node = w.node()
    node.activate()
    ns = node.schema
    t = w.roots[0]
    env.kinds['bulk ' + form] += 1
    loads = form in ('fields', 'last') or not ch.flag(40)
    l, d = w.loader(node), w.dumper(node)
    if form == 'fields':
        l.failonextra = ch.flag(30)
    T = ns['R0']
    if form == 'calls':
        avs = [t.gen(ch, 1) for _ in range(4)]

        def many(n):
            for i in range(n):
                if loads:
                    l.load(t.doc(avs[i % 4], cfg), T)
                else:
                    d.dump(t.real(avs[i % 4], ns))
        many(10)
        first = min(cpu(lambda: many(500))[0] for _ in range(3))
        many(24 * BULK // 4)
        last = min(cpu(lambda: many(500))[0] for _ in range(3))
        env.check(last <= 6 * first + 0.15, 'slower-afterwards', lambda: '500 %s took %.3f s at first and %.3f s after %d others' % ('loads' if loads else 'dumps', first, last, 6 * BULK))
        env.ops += 7 * BULK
        env.nontrivial = True
        env.ev('many calls')
        return
    one = t.gen(ch, 1) if form == 'fields' else (t.v if form == 'dict' else t.t).gen(ch, 1)

    def data(n):
        if form == 'fields':
            r = t.doc(one, cfg)
            r.update(('zz%d' % i, None) for i in range(n))
            return r
        if form == 'dict':
            av = [('k%d' % i, one) for i in range(n)]
        elif form in ('set', 'frozenset'):
            av = ['s%d' % i for i in range(n)]
        else:
            av = [one] * n
        if not loads:
            return t.real(av, ns)
        r = t.doc(av, cfg)
        if form == 'last':
            r[-1] = {'zz!': [r[0]]}
        return r

    def once(n):
        x = data(n)
        secs, r = cpu(lambda: core.call(l.load, x, T) if loads else core.call(d.dump, x))
        env.ops += 1
        return secs, r
    size = 25000 if ch.flag(35) else BULK
    once(10)
    small = min(once(size)[0] for _ in range(3))
    for attempt in range(3):
        big, r = once(size * 16)
        if big <= 64 * small + 1:
            break
    env.check(big <= 64 * small + 1, 'explodes', lambda: '%s of %s: %d elements take %.3f s, %d take %.3f s' % ('load' if loads else 'dump', t.src(), size, small, size * 16, big))
    ok = form != 'last' and not (form == 'fields' and l.failonextra)
    env.check((r[0] == 'ok') == ok, 'not-loaded', lambda: '%s of %d elements of %s: %s' % ('load' if loads else 'dump', size * 16, t.src(), core.show(core.outcome_of(r))[:1000]))
    env.ev('bulk %s: %s' % (form, r[0]))
    env.nontrivial = True


def run(env):
    ch = env.ch
    if ch.flag(3):
        bulk(env)
        return
    mode = ch.weighted([(5, 'recursive'), (3, 'nested'), (3, 'wide'), (2, 'many')])
    cfg = draw_cfg(ch, json=True, extra=False)
    if ch.flag(8):
        cfg.extra['pep563'] = True
    n0 = ch.rng_int(3, 9)
    info = []

    def schema(g):
        if mode in ('recursive', 'many'):
            info.extend(rec_schema(g, ch))
        elif mode == 'nested':
            u = units(g, ch)
            for k in (1, 2, 4):
                g.s.roots.append(nested(g, ch, n0 * k, u))
        else:
            for _ in range(ch.draw(3)):
                g.cls(1)
            t = g.type(1)
            g.s.roots.append(ch.pick([Seq('list', t, False), Dct(Basic('str'), t, False), Seq('tuple', t, False)]
                                     + ([Seq(ch.pick(['set', 'frozenset']), Basic('str'), False)] if ch.flag(20) else [])))
        return g.s
    w = Work(env, cfg, schema, recursive=False, allow_any=False)
    env.kinds[mode] += 1
    shape = Shape(ch)
    which = ch.draw(len(w.roots)) if mode != 'nested' else 0
    width = ch.draw(3)
    avs = []
    rs = []
    if mode == 'wide':
        n0 *= 3
    element = None
    for k in (1, 2, 4):
        n = n0 * k
        if mode == 'nested':
            rs.append({1: 0, 2: 1, 4: 2}[k])
            avs.append(Chain().grow(shape, w.roots[rs[-1]]))
            continue
        rs.append(which)
        t = w.roots[which]
        if mode == 'recursive':
            avs.append(shape.grow(t, n, width))
        elif mode == 'many':
            # many of the same depth
            shape.side = 0
            avs.append(shape.grow(t, 3, n))
        else:
            if element is None:
                e = t.v if isinstance(t, Dct) else t.t
                element = e.gen(ch, 2)
            if isinstance(t, Dct):
                avs.append([('k%d' % i, element) for i in range(n)])
            elif t.kind in ('set', 'frozenset'):
                avs.append(['s%d' % i for i in range(n)])
            else:
                avs.append([element] * n)
    loads = not ch.flag(25)
    node = w.node()
    node.activate()
    ns = node.schema
    # documents and damage
    docs = [w.roots[r].doc(av, w.cfg) for r, av in zip(rs, avs)]
    quadratic = mode in ('recursive', 'nested')

    def make():
        o = w.loader(node) if loads else w.dumper(node)
        if loads:
            o.frefs = {c.name: ns[c.name] for c in info}
        return o
    obj = make()
    annotated = ch.flag(40)

    def cost(k, x, obj=obj):
        world = env.world('few', True)
        world.main.begin(cap=LIMIT)
        try:
            if loads:
                r = core.call(obj.load, x, ns['R%d' % rs[k]])
            elif annotated:
                r = core.call(obj.dump, x, ns['R%d' % rs[k]])
            else:
                r = core.call(obj.dump, x)
        finally:
            world.main.end()
        env.done_world(world)
        env.ops += 1
        return world.main.count, r

    def given(k):
        return deep(docs[k]) if loads else w.roots[rs[k]].real(avs[k], ns)

    def growth(costs, what):
        a, b, c = costs
        env.ev('%s: %s %r' % (mode, what, costs))
        # bounds for twice the size, and four times the size
        f = 4.6 if quadratic else 2.4
        slack = 1500
        for x, y, n in ((a, b, 2), (b, c, 4)):
            env.check(y <= f * x + slack, 'explodes', lambda: '%s of %s data: sizes %d, %d, %d cost %r instructions' % (what, mode, n0, n0 * 2, n0 * 4, costs))
        return costs
    first = growth([cost(k, given(k), make())[0] for k in range(3)], 'first %s' % ('load' if loads else 'dump'))
    cold = [cost(k, given(k)) for k in range(3)]
    good = growth([cost(k, given(k))[0] for k in range(3)], 'good')
    for k in range(3):
        r = cold[k][1]
        env.check(r[0] == 'ok', 'not-loaded', lambda: 'size %d: %s' % (k, core.show(core.outcome_of(r))))
    refused = 0
    if not loads:
        env.nontrivial = True
    for _ in range(ch.rng_int(1, 4) if loads else 0):
        # the same damage in all sizes
        where = ch.pick(['bottom', 'bottom', 'middle', 'last', 'many'])
        poison = ch.pick(POISON)
        costs = []
        bad = []
        for k in range(3):
            d = deep(docs[k])
            if where == 'many':
                i = 0
                leaves = [p for p in paths(d) if p and not isinstance(get(d, p), (dict, list, tuple))]
                ps = leaves[::3]
            else:
                ps = list(paths(d))
                if where == 'bottom':
                    ps = [max(ps, key=len)]
                elif where == 'middle':
                    m = max(ps, key=len)
                    ps = [m[:(len(m) + 1) // 2]]
                else:
                    ps = [ps[-1]]
            for p in ps:
                d = put(d, p, deep(poison))
            n, r = cost(k, d)
            costs.append(n)
            bad.append(r)
            env.check(n <= 12 * good[k] + 20000, 'explodes', lambda: 'damage (%s, %r) of %s data: sizes %r cost %r instructions, and %r without damage' % (
                where, poison, mode, [n0, n0 * 2, n0 * 4][:k + 1], costs, good))
            if r[0] == 'exc' and isinstance(r[1], node.exc.TypedloadException):
                x, text = count_exceptions(r[1]), count_text(r[1])
                env.check(x <= good[k], 'explodes', lambda: 'damage (%s, %r) of %s data: the error of size %d has %r parts' % (where, poison, mode, n0 << k, x))
                # every part describes itself only; the descriptions have the name of a type and the damaged value
                env.check(text <= x * (600 + (60 * (n0 << k) if mode == 'nested' else 0)), 'explodes', lambda: 'damage (%s, %r) of %s data: the texts of the error of size %d have %d letters for %d parts' % (
                    where, poison, mode, n0 << k, text, x))
        env.fault('damage: ' + where)
        env.ev('%s: damaged (%s, %r): %r' % (mode, where, poison, costs))
        if all(r[0] == 'exc' for r in bad):
            refused += 1
            env.check(all(isinstance(r[1], node.exc.TypedloadException) for r in bad), 'wrong-exception', lambda: '%r' % (bad,))
        again = [cost(k, given(k))[0] for k in range(3)]
        env.check(all(x <= y * 1.02 + 30 for x, y in zip(again, good)), 'slower-afterwards', lambda: 'after damage (%s, %r): %r instructions, %r before' % (where, poison, again, good))
    # it does not depend on how many there were before
    k = ch.draw(3)
    last = 0
    for _ in range(ch.rng_int(2, 12)):
        last = cost(k, given(k))[0]
    env.check(last <= good[k] * 1.02 + 30, 'slower-afterwards', lambda: 'after some more of the same: %d instructions, %d before' % (last, good[k]))
    env.nontrivial = env.nontrivial or refused > 0


def count_exceptions(e, depth=0):
    """How big an error is."""
    if depth > 900:
        return 1
    return 1 + len(e.trace) + sum(count_exceptions(x, depth + 1) for x in e.exceptions)


def count_text(e, depth=0):
    """The letters of the descriptions."""
    if depth > 900:
        return 0
    return sum(len(str(a)) for a in e.args) + sum(count_text(x, depth + 1) for x in e.exceptions)
