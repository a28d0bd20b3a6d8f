"""C02: threads sharing a dumper."""
import zlib

from .. import battery, churn, core
from ..duel import duel
from ..schema import Basic, Seq
from ..work import Work
from .c01 import styles

BLOCK = 100
RUNS = {'quick': 6000, 'thorough': 60000}
RULE = ('one run: drawn schema and settings, 2-4 threads with 1-4 dumps each on one shared dumper (mostly never used before), drawn '
        'pre-emption points between bytecode instructions; or two dumps, held up at drawn writes they make; non-trivial: at least one switch of threads happened inside a dump')
STUBS = 'thread scheduling (simulated), threading/_thread/time/random as seen by the library'
ASSUMPTIONS = ['a switch of threads can happen between any two bytecode instructions of typedload, of the schema classes and (in a part of the runs) of typing/enum, but not inside C code',
               'the reference is the same code on a private dumper in a pristine copy of the modules']


def duels(env):
    ch = env.ch
    w = Work(env, odd=ch.flag(50), hooks=ch.flag(40))
    if ch.flag(10):
        w.cfg.extra = {}
    root = ch.draw(len(w.roots)) if ch.flag(60) else None
    bad = ch.pick([0, 15, 60])
    a, b = [w.dump_op(i, bad=bad, derived=12, root=root) for i in range(2)]
    if ch.flag(10):
        b = a
    warm = [w.dump_op(i + 2, bad=15) for i in range(2)] if ch.flag(25) else []
    cold = ch.flag(40)          # modules that were never used before, too
    for o in (a, b):
        w.pristine_dump(o)
    node = [w.node()]
    node[0].activate()

    def make():
        if cold:
            node[0] = w.node()
            node[0].activate()
        d = w.dumper(node[0])
        for o in warm:
            w.do_dump(node[0], d, o)
        return d, w.value(node[0], a), w.value(node[0], b)
    env.ev('first:', repr(a))
    env.ev('second:', repr(b))
    prints = []
    for plans, ra, rb, (d, _, _) in duel(env, make, lambda s: w.do_dump(node[0], s[0], a, s[1]), lambda s: w.do_dump(node[0], s[0], b, s[2]),
                                         ch.rng_int(3, 8), 'dumps', ch.flag(8)):
        for o, r in ((a, ra), (b, rb)):
            env.ops += 1
            got = core.outcome_of(r)
            env.ev('got', core.show(got))
            env.same(got, w.memo[o.key], 'dump-differs', lambda: '%r, with both held up at %r' % (o, plans))
        for o in (a, b):
            env.ops += 1
            env.same(core.outcome_of(w.do_dump(node[0], d, o)), w.memo[o.key], 'later-dump-differs', lambda: 'after the threads: %r' % o)
        prints.append(repr(plans))
    env.ilv = zlib.crc32(repr((prints, env.log)).encode('utf-8', 'backslashreplace'))
    env.nontrivial = bool(prints)


def crowd(env):
    """Threads that dump values of the same many classes on one dumper, in orders of their own."""
    ch = env.ch
    node = env.node()
    node.activate()
    d = node.Dumper(hidedefault=ch.flag(50))
    light = ch.flag(50)
    made = [churn.make(ch, i, light) for i in range(ch.pick([30, 70, 140]))]
    env.fault('many types')
    bad = []
    n = 2 + ch.draw(2)
    often = ch.pick([1, 3, 6])
    orders = [[(k, m) for k, m in enumerate(made if i == 0 else made[::-1] if i == 1 else ch.shuffled(made)) for _ in range(often)] for i in range(n)]
    world = env.world(ch.pick(['mid', 'fine', 'mid', 'stores']))

    def actor(order):
        def fn(a):
            a.begin(cap=1 << 40)
            try:
                for k, m in order:
                    r = core.call(d.dump, m.value)
                    if r[0] != 'ok' or r[1] != churn.expected_dump(m):
                        bad.append((k, m, r))
            finally:
                a.end()
        return fn
    try:
        world.run_threads([actor(o) for o in orders])
    finally:
        env.done_world(world)
    env.ops += n * len(made) * often
    env.ilv = world.interleaving()
    env.fault('preemption', world.switches)
    env.ev('%d threads and %d classes' % (n, len(made)), repr(made))
    for x in world.log:
        env.ev(repr(x))
    env.nontrivial = world.switches > 0
    if bad:
        k, m, r = bad[0]
        env.fail('dump-differs', 'thread dumping %r, %d other classes before: %s' % (m, k, core.show(core.outcome_of(r))))
    for m in made:
        churn.one_dump(env, d, m, 'after the threads')


def run(env):
    ch = env.ch
    if ch.flag(35):
        return duels(env)
    if ch.flag(4):
        return crowd(env)
    lists = ch.flag(35)
    def schema(g):
        s = g.schema()
        if lists:
            # lists of different things
            s.roots = [Seq('list', Basic(ch.pick(['int', 'str'])), ch.flag(50)), Seq('list', g.type(1), False), Seq('tuple', g.type(1), True)] + s.roots[:1]
        return s
    w = Work(env, odd=ch.flag(50), hooks=ch.flag(40), schema=schema)
    if ch.flag(10):
        w.cfg.extra = {}
    nthreads = ch.weighted([(5, 2), (4, 3), (1, 4)])
    pool = [w.dump_op(i, bad=0 if lists else 15, derived=12) for i in range(ch.rng_int(2 if lists else 1, 4))]
    if lists:
        for o in pool:
            o.annotated = o.annotated or o.wrap is None and ch.flag(80)
    plan = [[ch.pick(pool) for _ in range(ch.weighted([(4, 1), (4, 2), (1, 4)]))] for _ in range(nthreads)]
    warm = [ch.pick(pool) for _ in range(ch.draw(3))] if ch.flag(20) else []
    for o in pool:
        w.pristine_dump(o)
    node = w.node()
    node.activate()
    dumper = w.dumper(node)
    shared = ch.flag(40)        # threads dump the very same objects
    values = [[None if o.wrap is not None and not shared else w.value(node, o) for o in p] for p in plan]
    if shared:
        objs = {o.key: w.value(node, o) for o in pool}
        values = [[objs[o.key] for o in p] for p in plan]
    for o in warm:
        env.ev('before the threads:', repr(o))
        w.do_dump(node, dumper, o)
    style, deep = styles(ch)
    world = env.world(style, deep)
    results = [[] for _ in plan]

    def actor(i):
        def fn(a):
            for o, v in zip(plan[i], values[i]):
                if v is None:
                    v = w.value(node, o)
                a.begin()
                try:
                    r = w.do_dump(node, dumper, o, v) if v is not None else w.do_dump(node, dumper, o)
                finally:
                    a.end()
                results[i].append(r)
        return fn
    for i, p in enumerate(plan):
        env.ev('thread %d:' % i, '; '.join(map(repr, p)))
    try:
        world.run_threads([actor(i) for i in range(nthreads)])
    finally:
        env.done_world(world)
        for x in world.log:
            env.ev(repr(x))
    env.ilv = world.interleaving()
    env.fault('preemption', world.switches)
    env.nontrivial = world.switches > 0
    for i, p in enumerate(plan):
        for o, r in zip(p, results[i]):
            env.ops += 1
            got = core.outcome_of(r)
            env.ev('thread %d got' % i, core.show(got))
            env.same(got, w.memo[o.key], 'dump-differs', lambda: 'thread %d: %r' % (i, o))
    for o in pool:
        env.ops += 1
        env.same(core.outcome_of(w.do_dump(node, dumper, o)), w.memo[o.key], 'later-dump-differs', lambda: 'after the threads: %r' % o)
    battery.check(env, w, node, dumper, False, 'later-dump-differs', 'after the threads')
