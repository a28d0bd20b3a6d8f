"""C01: threads sharing a loader."""
import zlib

from .. import battery, core
from ..duel import duel
from ..schema import damage
from ..work import EMPTY, Op, Work, deep

BLOCK = 100
RUNS = {'quick': 6000, 'thorough': 60000}
RULE = ('one run: drawn schema and settings, 2-4 threads with 1-4 loads each on one shared loader (mostly never used before), drawn '
        'pre-emption points between bytecode instructions; or two loads, held up at drawn writes they make; non-trivial: at least one switch of threads happened inside a load')
STUBS = 'thread scheduling (simulated), threading/_thread/time/random as seen by the library'
ASSUMPTIONS = ['a switch of threads can happen between any two bytecode instructions of typedload, of the schema classes and (in a part of the runs) of typing/enum, but not inside C code',
               'the reference is the same code on a private loader in a pristine copy of the modules']


def styles(ch):
    return ch.weighted([(4, 'few'), (2, 'mid'), (1, 'fine'), (4, 'stores')]), ch.flag(12)


def duels(env):
    ch = env.ch
    w = Work(env, wild=35, odd=ch.flag(50), hooks=ch.flag(20))
    if ch.flag(60):
        root = ch.draw(len(w.roots))
        if ch.flag(40):
            # two mistakes in documents that are the same otherwise
            a = w.good_op(0, root)
            b = Op(1, root, a.av, False, '', a.doc)
            for o in (a, b):
                how, o.doc = damage(o.doc, ch)
                o.how = 'damage:' + how
                o.good = False
                env.kinds[o.how] += 1
        else:
            a, b = w.ops(2, bad=ch.pick([0, 85]), root=root)
    else:
        a, b = w.ops(2, bad=25)
    if ch.flag(10):
        b = a
    warm = w.ops(2, bad=25) if ch.flag(25) else []
    cold = ch.flag(40)          # modules that were never used before, too
    for o in (a, b):
        w.pristine(o)
    node = [w.node()]
    node[0].activate()

    def make():
        if cold:
            node[0] = w.node()
            node[0].activate()
        l = w.loader(node[0])
        for o in warm:
            w.do_load(node[0], l, o)
        return l
    env.ev('first:', repr(a))
    env.ev('second:', repr(b))
    prints = []
    for plans, ra, rb, l in duel(env, make, lambda l: w.do_load(node[0], l, a), lambda l: w.do_load(node[0], l, b), ch.rng_int(3, 8), 'loads', ch.flag(8)):
        for o, r in ((a, ra), (b, rb)):
            env.ops += 1
            got = core.outcome_of(r)
            env.ev('got', core.show(got))
            env.same(got, w.memo[o.key], 'load-differs', lambda: '%r, with both held up at %r' % (o, plans))
        for o in (a, b):
            env.ops += 1
            env.same(core.outcome_of(w.do_load(node[0], l, o)), w.memo[o.key], 'later-load-differs', lambda: 'after the threads: %r' % o)
        prints.append(repr(plans))
    env.ilv = zlib.crc32(repr((prints, env.log)).encode('utf-8', 'backslashreplace'))
    env.nontrivial = bool(prints)


def run(env):
    ch = env.ch
    if ch.flag(35):
        return duels(env)
    many = ch.pick([70, 140]) if ch.flag(7) else 0
    w = Work(env, wild=35, odd=ch.flag(50), hooks=ch.flag(20), manytypes=many)
    nthreads = ch.weighted([(5, 2), (4, 3), (1, 4)])
    if ch.flag(25):
        # everybody in the same places: values of one type, most of them with something wrong
        root = ch.draw(len(w.roots))
        pool = w.ops(ch.rng_int(2, 4), bad=75, root=root)
        env.fault('same type, wrong values')
    else:
        pool = w.ops(ch.rng_int(1, 4), bad=25)
    plan = [[ch.pick(pool) for _ in range(ch.weighted([(4, 1), (4, 2), (1, 4)]))] for _ in range(nthreads)]
    warm = [ch.pick(pool) for _ in range(ch.draw(3))] if ch.flag(20) else []
    for o in pool:
        w.pristine(o)
    node = w.node()
    node.activate()
    loader = w.loader(node)
    for o in warm:
        env.ev('before the threads:', repr(o))
        w.do_load(node, loader, o)
    docs = {o.key: deep(o.doc) for o in pool} if ch.flag(35) else None      # threads load the very same objects
    style, deeply = styles(ch)
    if many:
        style, deeply = ch.pick(['mid', 'few', 'fine']), False
        env.fault('many types')
        often = ch.pick([1, 3])
    bad = []
    world = env.world(style, deeply)
    results = [[] for _ in plan]

    def actor(i):
        def fn(a):
            for o in plan[i]:
                a.begin()
                try:
                    r = w.do_load(node, loader, o) if docs is None else core.call(loader.load, docs[o.key], node.schema['R%d' % o.root])
                finally:
                    a.end()
                results[i].append(r)
            if many:
                a.begin(cap=1 << 40)
                try:
                    for k, t in enumerate(node.schema['M'] if i % 2 else node.schema['M'][::-1]):
                        x = EMPTY[(k if i % 2 else many - 1 - k) % 5]
                        for _ in range(often):
                            r = core.call(loader.load, x, t)
                            if r[0] == 'ok':
                                continue
                            bad.append((x, t, core.show(core.outcome_of(r))))
                finally:
                    a.end()
        return fn
    for i, p in enumerate(plan):
        env.ev('thread %d:' % i, '; '.join(map(repr, p)))
    try:
        world.run_threads([actor(i) for i in range(nthreads)])
    finally:
        env.done_world(world)
        for x in world.log:
            env.ev(repr(x))
    env.ilv = world.interleaving()
    env.fault('preemption', world.switches)
    env.nontrivial = world.switches > 0
    for i, p in enumerate(plan):
        for o, r in zip(p, results[i]):
            env.ops += 1
            got = core.outcome_of(r)
            env.ev('thread %d got' % i, core.show(got))
            env.same(got, w.memo[o.key], 'load-differs', lambda: 'thread %d: %r' % (i, o))
    if bad:
        env.fail('load-differs', 'loading %r into %r: %s' % bad[0])
    # The loader is still as good as new
    for o in pool:
        env.ops += 1
        env.same(core.outcome_of(w.do_load(node, loader, o)), w.memo[o.key], 'later-load-differs', lambda: 'after the threads: %r' % o)
    battery.check(env, w, node, loader, True, 'later-load-differs', 'after the threads')
