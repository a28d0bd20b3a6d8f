"""C18: load() and dump() from inside of load() and dump()."""
import sys

from .. import core, hooks, streams
from .. import canon as C
from ..work import Work, deep, draw_cfg
from .c05 import KINDS  # noqa: F401

BLOCK = 80
RUNS = {'quick': 8000, 'thorough': 120000}
RULE = ('one run: drawn schema with handlers, constructors, post-init hooks, factories, converters and validators of the user and input streams; at drawn '
        'calls of them during a load or dump, they load or dump something drawn - good, damaged or failing in a callback of its own - on the same '
        'loader or dumper, or on the other one, down to 4 levels (60 in part of the runs), in part of the runs from 2-3 threads; each inner outcome is compared with the same call '
        'alone, and each outer one with the same call without inner ones; non-trivial: an inner call was made while another was running')
STUBS = 'the callbacks and the input streams (simulated: they make the calls that are drawn); thread scheduling in part of the runs'
ASSUMPTIONS = ['an inner call whose error is not caught by the callback is a failure of the callback (C08)']

MAXDEPTH = 4


class Nest:
    """What the callbacks of one thread do."""
    def __init__(self, env, app, rate, budget):
        self.env = env
        self.app = app
        self.rate = rate
        self.budget = budget
        self.depth = 0
        self.stack = []
        self.failing = 0
        self.made = 0
        self.results = []
        self.maxdepth = MAXDEPTH

    def callback(self, where, value=None, obj=None):
        app, ch = self.app, self.env.ch
        if self.depth == 0:
            return
        if self.failing and self.depth > 1 and self.stack[-1] == 'failing':
            self.failing -= 1
            self.stack[-1] = 'failed'
            raise hooks.UserFailure(where)
        if self.budget <= 0 or self.depth >= self.maxdepth or not ch.flag(self.rate):
            return
        self.budget -= 1
        loads, o = app.pick(ch, obj)
        fails = ch.flag(12)
        self.inner(loads, o, where, fails)

    def inner(self, loads, o, where, fails):
        self.made += 1
        self.env.kinds['from ' + (where if ' ' not in where and '.' not in where else 'handler' if 'handler' in where else 'constructor')] += 1
        self.depth += 1
        self.stack.append('failing' if fails else 'inner')
        if fails:
            self.failing += 1
        try:
            r = self.app.do(loads, o)
        finally:
            self.depth -= 1
            st = self.stack.pop()
            if st == 'failing':
                self.failing -= 1
        if st == 'failed':
            # it was a callback of this very call, which nobody may hide
            self.results.append((loads, o, where, self.depth, r, True))
        else:
            self.results.append((loads, o, where, self.depth, r, False))

    def outer(self, loads, o):
        self.depth = 1
        self.stack.append('outer')
        try:
            return self.app.do(loads, o)
        finally:
            self.depth = 0
            self.stack.pop()


class App:
    def __init__(self, env, w, node, lops, dops):
        self.env = env
        self.w = w
        self.node = node
        self.ns = node.schema
        self.lops = lops
        self.dops = dops
        self.loader = w.loader(node)
        self.dumper = w.dumper(node)
        self.current = None         # thread -> Nest
        self.values = {o.key: w.value(node, o) for o in dops}

    def pick(self, ch, obj):
        loads = ch.flag(60)
        if not self.dops:
            loads = True
        elif not self.lops:
            loads = False
        return loads, ch.pick(self.lops if loads else self.dops)

    def do(self, loads, o):
        if not loads:
            return self.w.do_dump(self.node, self.dumper, o, self.values[o.key])
        if o.streamer is not None:
            st = o.streamer
            saved = st.tapes, st.maptapes
            st.tapes, st.maptapes = [], []
            doc = st.make(self.w.roots[o.root], o.av, o.doc)
            for t in st.tapes + st.maptapes:
                t.on_deliver = self.delivered
            st.tapes, st.maptapes = saved
        else:
            doc = deep(o.doc)
        return core.call(self.loader.load, doc, self.ns['R%d' % o.root])

    def delivered(self, i):
        self.hook('source')

    def hook(self, where, value=None, obj=None):
        n = self.current() if self.current is not None else None
        if n is not None:
            n.callback(where, value, obj)


def run(env):
    ch = env.ch
    w = Work(env, draw_cfg(ch, extra=ch.flag(30)), hooks=True, wild=20, allow_any=False, lists=ch.flag(40))
    lops = []
    for i in range(ch.rng_int(1, 4)):
        if ch.flag(55):
            o = w.good_op(i)
            if ch.flag(60) and o.root < w.nsane:
                o.streamer = streams.Streamer(ch, w.cfg, maps=ch.pick([0, 20]), streams=ch.pick([60, 90]))
                o.streamer.make(w.roots[o.root], o.av, o.doc)
        else:
            o = w.op(i, bad=70)
        lops.append(o)
    dops = [w.dump_op(100 + i, bad=25) for i in range(ch.draw(3))]
    want = {}
    for o in lops:
        want[o.key] = w.pristine(o)
        if want[o.key][0] != 'ok':
            o.streamer = None
    for o in dops:
        want[o.key] = w.pristine_dump(o)
    node = w.node()
    node.activate()
    ns = node.schema
    app = App(env, w, node, lops, dops)
    ns['_hook'] = app.hook
    made = 0

    def judge(nest, outer, what):
        loads, o, r = outer
        env.ops += 1 + len(nest.results)
        for l, io, where, depth, ir, failed in nest.results:
            env.ev('    ' * depth + 'inner %s from %s:' % ('load' if l else 'dump', where), repr(io), '->', core.show(core.outcome_of(ir), 120))
        env.ev(what, 'load' if loads else 'dump', repr(o), '->', core.show(core.outcome_of(r), 200), '(%d inner calls)' % len(nest.results))
        for l, io, where, depth, ir, failed in nest.results:
            if failed:
                env.fault('failing callback of an inner call')
                env.check(ir[0] == 'exc', 'failure-masked', lambda: 'inner %r from %s: a callback failed, and it gave %s' % (io, where, core.show(core.outcome_of(ir))))
            else:
                env.same(core.outcome_of(ir), want[io.key], 'inner-differs', lambda: 'inner %r, from %s of %r' % (io, where, o))
        env.same(core.outcome_of(r), want[o.key], 'outer-differs', lambda: '%s: %r, during which were made %r' % (
            what, o, [(io, where) for l, io, where, depth, ir, failed in nest.results]))
    rounds = ch.rng_int(2, 5)
    for k in range(rounds):
        if ch.flag(25):
            app.loader, app.dumper = w.loader(node), w.dumper(node)
        rate = ch.pick([20, 50, 80, 100])
        if ch.flag(25):
            made += threaded(env, w, app, rate, judge)
            continue
        nest = Nest(env, app, rate, ch.rng_int(1, 8))
        far = ch.flag(12)
        if far:
            # each in the one before
            nest.budget, nest.maxdepth, nest.rate = 60, ch.pick([10, 25, 60]), 100
        app.current = lambda: nest
        loads, o = app.pick(ch, None)
        limit = sys.getrecursionlimit()
        if far:
            sys.setrecursionlimit(limit + 6000)
        try:
            r = nest.outer(loads, o)
        finally:
            sys.setrecursionlimit(limit)
        app.current = None
        made += nest.made
        judge(nest, (loads, o, r), 'round %d' % k)
    for o in lops + dops:
        env.same(core.outcome_of(app.do(o in lops, o)), want[o.key], 'wrong-afterwards', lambda: '%r in the end' % o)
    env.nontrivial = made > 0


def threaded(env, w, app, rate, judge):
    ch = env.ch
    n = ch.rng_int(2, 3)
    world = env.world(ch.pick(['few', 'mid']))
    nests = [Nest(env, app, rate, ch.rng_int(1, 4)) for _ in range(n)]
    outers = [app.pick(ch, None) for _ in range(n)]
    rs = [None] * n
    running = {}
    import threading
    app.current = lambda: running.get(threading.get_ident())

    def actor(i):
        def fn(a):
            running[threading.get_ident()] = nests[i]
            a.begin()
            try:
                rs[i] = nests[i].outer(*outers[i])
            finally:
                a.end()
        return fn
    try:
        world.run_threads([actor(i) for i in range(n)])
    finally:
        env.done_world(world)
        app.current = None
    env.ilv = world.interleaving()
    env.fault('preemption', world.switches)
    for i in range(n):
        judge(nests[i], outers[i] + (rs[i],), 'thread %d' % i)
    return sum(x.made for x in nests)
