"""C12: loaders and dumpers with different settings, side by side."""
import copy
import gc
import datetime
import pathlib

from .. import core
from .. import canon as C
from ..schema import ForeignT, Seq, sibling
from ..work import Work, deep, draw_cfg

BLOCK = 120
RUNS = {'quick': 6000, 'thorough': 150000}
RULE = ('one run: drawn schema, 2-5 loaders and dumpers with drawn settings, handlers, basictypes, strconstructed and frefs of their own, made at '
        'drawn moments, and the module level load() and dump() with drawn keyword arguments; drawn operations on all of them in turns, or '
        'from 2-4 threads, on good and damaged data; each outcome is compared with a process that only has that one; '
        'non-trivial: at least two objects gave different outcomes for the same operation, or threads were switched')
STUBS = 'thread scheduling in part of the runs'
ASSUMPTIONS = ['the reference is the same code in a pristine copy of the modules, that has never had any other loader or dumper']


class Spec:
    """How to make one loader or dumper."""
    def __init__(self, ch, n, loads, base, two, brief):
        self.n = n
        self.loads = loads
        self.module = ch.flag(30)
        if ch.flag(45 if two else 20):
            # all the defaults
            self.kw = {}
        elif loads:
            c = draw_cfg(ch)
            self.kw = c.loader_kw()
            if ch.flag(20):
                self.kw['uniondebugconflict'] = True
        else:
            self.kw = draw_cfg(ch).dumper_kw()
        self.custom = ch.weighted([(5, None), (1, 'path'), (1, 'date'), (1, 'class'), (1, 'basic'), (1, 'str'), (1, 'frefs'), (1, 'nohandlers'), (1, 'later'), (2, 'added')])
        if brief and ch.flag(70):
            self.custom = ch.pick(['path', 'date', 'class', 'class', 'basic', 'str', 'added', 'nohandlers'])
            self.module = ch.flag(15)
        self.w, self.app = base

    def make(self, node):
        """Makes it; with the module level functions, gives the keyword arguments."""
        kw = {k: set(v) if type(v) is set else v for k, v in self.kw.items()}
        c = self.custom
        cls = node.Loader if self.loads else node.Dumper
        later = None
        if c == 'str':
            base = cls().strconstructed
            kw['strconstructed'] = {t for t in base if 'Path' in t.__name__} if self.n % 2 else set(base) | {bytes}
        elif c == 'basic':
            kw['basictypes'] = {int, bool, float, str, type(None), bytes, pathlib.PosixPath, datetime.date}
        elif c == 'frefs' and self.loads:
            kw['frefs'] = None if self.n % 2 else {'C1': int, 'C2': str}
        elif c in ('path', 'date', 'class', 'nohandlers'):
            hs = list(cls().handlers)
            if c == 'nohandlers':
                del hs[self.n % len(hs)]
            else:
                hs.insert(0, self.handler(node))
            kw['handlers'] = hs
        elif c == 'later':
            later = self.handler(node)
        F = node.schema['Foreign']
        if self.module:
            if c == 'added':
                kw[('strconstructed', 'basictypes')[self.n % 2]] = (cls().strconstructed, cls().basictypes)[self.n % 2] | {F}
            return kw
        o = cls(**kw)
        if c == 'added':
            # the sets of this one
            (o.strconstructed, o.basictypes)[self.n % 2].add(F)
            if self.n % 3 == 0:
                o.basictypes.discard(bool)
        if later:
            # as the documentation does
            o.handlers.insert(0, later)
        return o

    def handler(self, node):
        tag = 'handled by %d' % self.n
        c = self.custom
        t = {'path': pathlib.Path, 'date': datetime.date}.get(c) or node.schema.get('C1') or datetime.time
        if self.loads:
            return (lambda x: x == t, lambda l, v, x: tag)
        return (lambda v: isinstance(v, t) if isinstance(t, type) and not hasattr(t, '__total__') else False, lambda d, v, x: tag)

    def do(self, w, node, made, o):
        if self.loads:
            t = node.schema['R%d' % o.root]
            if self.module:
                return core.call(node.tl.load, deep(o.doc), t, **made)
            return core.call(made.load, deep(o.doc), t)
        v = w.value(node, o)
        if self.module:
            return core.call(node.tl.dump, v, **made)
        return core.call(made.dump, v, node.schema['R%d' % o.root]) if o.annotated else core.call(made.dump, v)

    def __repr__(self):
        return '%s %d%s%s(%s%s)' % ('loader' if self.loads else 'dumper', self.n, ' of program %d' % self.app if self.app else '', ' at module level' if self.module else '',
                                  ', '.join('%s=%r' % i for i in sorted(self.kw.items())), ', custom ' + self.custom if self.custom else '')


def run(env):
    ch = env.ch
    two = ch.flag(35)
    brief = ch.flag(35)     # objects only live for one operation, and the next ones may have their addresses
    kind = ch.pick([True, False]) if brief and ch.flag(70) else None
    names = ch.flag(50)
    def schema(g):
        if two and names:
            g.recursive_p = 60
        s = g.schema()
        f = ForeignT()
        s.defs.append(f)
        if ch.flag(40):
            s.roots += [f, Seq('list', f, False)][ch.draw(2):]
        if ch.flag(40):
            s.roots.append(g.tagged()[0])
        return s
    apps = []
    for i in range(2 if two else 1):
        # programs in the same process, whose classes have the same names
        twins = i == 1 and ch.flag(50)
        if twins:
            first = apps[0][0]

            def schema(g):
                g.s = sibling(first.s, ch)
                return g.s
            env.fault('programs that are almost the same')
        w = Work(env, first.cfg if twins else draw_cfg(ch, extra=False), schema, wild=0 if twins else 30, odd=ch.flag(50))
        lops = w.ops(ch.rng_int(1, 4), bad=25)
        if twins:
            # the data of the other program
            for o in ch.subset(apps[0][1], 70):
                o = copy.copy(o)
                o.key, o.good, o.how = len(lops) + 50, False, 'for the other program'
                lops.append(o)
        dops = [w.dump_op(100 + j, bad=10, derived=10) for j in range(ch.rng_int(1, 3))]
        apps.append((w, lops, dops))
    specs = []
    for i in range(ch.rng_int(2, 5)):
        a = ch.draw(len(apps))
        specs.append(Spec(ch, i, not ch.flag(35) if kind is None else kind, (apps[a][0], a), two, brief))
    if two and ch.flag(70):
        # the same settings in both programs
        s = copy.copy(specs[0])
        s.n = len(specs)
        s.app = 1 - s.app
        s.w = apps[s.app][0]
        if ch.flag(50):
            specs[0].module = s.module = True
            specs[0].kw = s.kw = {}
            specs[0].custom = s.custom = None
        specs.append(s)
    for s in specs:
        env.ev(repr(s))
    memo = {}

    def want(s, o):
        k = (s.n, o.key)
        if k not in memo:
            n = s.w.node()
            n.activate()
            memo[k] = core.outcome_of(s.do(s.w, n, s.make(n), o))
        return memo[k]
    plan = []
    for i in range(ch.rng_int(6, 18)):
        s = ch.pick(specs)
        o = ch.pick(apps[s.app][1] if s.loads else apps[s.app][2])
        plan.append((s, o))
        want(s, o)
    nodes = [apps[0][0].node()]
    nodes[0].activate()
    for a in apps[1:]:
        same = ch.flag(50) and all(x[0].lone() for x in apps)
        nodes.append(nodes[0].with_schema(a[0].code, 'schema' if same else 'schema2'))
        if same:
            env.fault('names of modules are the same, too')
        env.fault('two programs in a process')
    made = {}

    def get(s):
        if s.n not in made:
            made[s.n] = s.make(nodes[s.app])
        return made[s.n]

    def verify(s, o, r, what):
        env.ops += 1
        got = core.outcome_of(r)
        env.ev(what, '%s %d' % ('loader' if s.loads else 'dumper', s.n), repr(o), '->', core.show(got, 150))
        env.same(got, want(s, o), 'influenced', lambda: '%s %r of %r' % (what, o, s))
    if ch.flag(10 if brief else 35):
        nt = ch.rng_int(2, 4)
        early = ch.flag(50)
        if early:
            for s in specs:
                get(s)
        world = env.world(ch.pick(['few', 'mid', 'stores', 'fine']))
        parts = [plan[i::nt] for i in range(nt)]
        own = {}            # first come, first served: an object is made by the thread that needs it
        rs = [[] for _ in parts]

        def actor(i):
            def fn(a):
                for s, o in parts[i]:
                    a.begin()
                    try:
                        m = made.get(s.n) if early else own.get((i, s.n))
                        if m is None:
                            m = own[i, s.n] = s.make(nodes[s.app])
                        rs[i].append(s.do(s.w, nodes[s.app], m, o))
                    finally:
                        a.end()
            return fn
        try:
            world.run_threads([actor(i) for i in range(nt)])
        finally:
            env.done_world(world)
        env.ilv = world.interleaving()
        env.fault('preemption', world.switches)
        env.nontrivial = world.switches > 0
        for i, p in enumerate(parts):
            for (s, o), r in zip(p, rs[i]):
                verify(s, o, r, 'thread %d:' % i)
    if brief:
        env.fault('objects of one use')
    for i, (s, o) in enumerate(plan):
        if brief:
            made.clear()
            gc.collect(1)
        if ch.flag(15):
            made.pop(s.n, None)     # a new one with the same settings
            env.fault('object made again')
        verify(s, o, s.do(s.w, nodes[s.app], get(s), o), '%d:' % i)
    by = {}
    for (n, k), r in memo.items():
        by.setdefault((specs[n].app, k), set()).add(repr(r))
    if any(len(v) > 1 for v in by.values()):
        env.nontrivial = True
