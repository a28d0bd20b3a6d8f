"""C05: interruption of a load or a dump by an asynchronous exception, at any instruction."""
import asyncio

from .. import battery, core
from ..work import Work, deep
from .. import canon as C

BLOCK = 80
RUNS = {'quick': 4000, 'thorough': 60000}
RULE = ('one run: drawn schema and settings, 1-3 loads (or dumps) of a long-lived object are cut short by KeyboardInterrupt, SystemExit, '
        'CancelledError or another BaseException raised at a drawn bytecode instruction (half of them next to a write to shared state), '
        'alone or while other threads use the object; then all the operations are compared with a brand new object; '
        'non-trivial: at least one of the exceptions was raised inside the call')
STUBS = 'delivery of asynchronous exceptions and thread scheduling (simulated), threading/_thread/time/random as seen by the library'
ASSUMPTIONS = ['asynchronous exceptions arrive between two bytecode instructions of typedload or of the schema classes, not inside C code',
               'exceptions of timers are not subclasses of Exception']


class Alarm(BaseException):
    pass


KINDS = (KeyboardInterrupt, SystemExit, Alarm, asyncio.CancelledError)


class Side:
    """Loads or dumps, uniformly."""
    def __init__(self, env, w, load):
        self.w = w
        self.load = load
        n = 2 + env.ch.draw(3)
        self.pool = w.ops(n, bad=25) if load else [w.dump_op(i, bad=10, derived=10) for i in range(n)]
        self.want = w.pristine if load else w.pristine_dump

    def obj(self, node):
        return self.w.loader(node) if self.load else self.w.dumper(node)

    def do(self, node, obj, op):
        return (self.w.do_load if self.load else self.w.do_dump)(node, obj, op)

    def given(self, node, op):
        return deep(op.doc) if self.load else self.w.value(node, op)

    def do_with(self, node, obj, op, x):
        if self.load:
            return core.call(obj.load, x, node.schema['R%d' % op.root])
        return self.w.do_dump(node, obj, op, x)


def measure(env, s, op):
    """(instructions, instructions of writes) of the operation on a brand new object."""
    n = s.w.node()
    n.activate()
    o = s.obj(n)
    x = s.given(n, op)
    world = env.world('sites')
    world.main.begin()
    try:
        s.do_with(n, o, op, x)
    finally:
        world.main.end()
    env.done_world(world)
    return world.main.count, [i for i in world.sites]


def pick_instant(ch, total, sites):
    if sites and ch.flag(55):
        return max(1, ch.pick(sites) + ch.pick([0, 1, 2, -1]))
    return 1 + ch.draw(max(total, 1))


def sweep(env, s, node, op, obj, make, visit, most=60, seconds=None):
    """
    The operation is cut short at many instants, from the first to the last, on the same object or on brand new ones.
    Calls visit(object, result, exception, actor, given value) for each.
    """
    ch = env.ch
    total, sites = measure(env, s, op)
    n = min(most, total)
    step = total / n
    first = ch.draw(max(int(step), 1))
    fresh = ch.flag(50)
    env.ev('%r is cut short at %d instants, on %s' % (op, n, 'new objects' if fresh else 'one object'))
    world = env.world('few')
    try:
        for i in range(n):
            at = 1 + first + int(i * step)
            o = s.obj(node) if fresh else obj
            x = s.given(node, op)
            node.activate()
            exc = make(i)
            world.main.begin(fault_at=at, fault_exc=exc)
            try:
                r = s.do_with(node, o, op, x)
            finally:
                world.main.end()
            visit(o, r, exc, at, world.main.fault_fired, x)
    finally:
        env.done_world(world)


def run(env):
    ch = env.ch
    w = Work(env, wild=35, odd=ch.flag(50), hooks=ch.flag(25))
    s = Side(env, w, not ch.flag(35))
    for o in s.pool:
        s.want(o)
    node = w.node()
    node.activate()
    obj = s.obj(node)
    if ch.flag(25):
        o = ch.pick(s.pool)
        env.ev('warm up:', repr(o))
        s.do(node, obj, o)
    fired = 0
    for k in range(ch.weighted([(5, 1), (3, 2), (1, 3)])):
        op = ch.pick(s.pool)
        if ch.flag(20):
            before = C.canon(s.given(node, op))

            def visit(o, r, exc, at, hit, x):
                nonlocal fired
                env.ops += 1
                if not hit:
                    env.same(core.outcome_of(r), s.want(op), 'differs', lambda: 'call that was not interrupted: %r' % op)
                    return
                fired += 1
                env.fault(type(exc).__name__)
                if r[0] == 'ok':
                    env.fail('swallowed', '%r at instruction %d of %r was swallowed; the call returned %s' % (exc, at, op, core.show(core.outcome_of(r))))
                if r[1] is not exc:
                    env.fail('replaced', '%r at instruction %d of %r was replaced by %s' % (exc, at, op, core.show(core.outcome_of(r))))
                env.check(C.canon(x) == before, 'input-modified', lambda: 'the input of the interrupted call was modified: %r' % op)
                if at % 3 == 0:
                    env.same(core.outcome_of(s.do(node, o, op)), s.want(op), 'later-differs', lambda: 'after %s at instruction %d: %r' % (type(exc).__name__, at, op))
            sweep(env, s, node, op, obj, lambda i: KINDS[i % 4]('injected'), visit)
            continue
        total, sites = measure(env, s, op)
        at = pick_instant(ch, total, sites)
        exc = ch.pick(KINDS)('injected')
        x = s.given(node, op)
        before = C.canon(x)
        node.activate()
        threads = ch.flag(25)
        others = [[ch.pick(s.pool) for _ in range(1 + ch.draw(2))] for _ in range(1 + ch.draw(2))] if threads else []
        world = env.world(ch.pick(['few', 'mid', 'stores']) if threads else 'few')
        results = [[] for _ in others]
        if not threads:
            a = world.main
            a.begin(fault_at=at, fault_exc=exc)
            try:
                r = s.do_with(node, obj, op, x)
            finally:
                a.end()
        else:
            box = []

            def victim(a):
                a.begin(fault_at=at, fault_exc=exc)
                try:
                    box.append(s.do_with(node, obj, op, x))
                finally:
                    a.end()

            def other(i):
                def fn(a):
                    for o in others[i]:
                        y = s.given(node, o)
                        a.begin()
                        try:
                            results[i].append(s.do_with(node, obj, o, y))
                        finally:
                            a.end()
                return fn
            world.run_threads([victim] + [other(i) for i in range(len(others))])
            r = box[0]
            a = world.actors[0]
            env.ilv = world.interleaving()
            env.fault('preemption', world.switches)
        env.done_world(world)
        env.ops += 1
        env.ev('%r interrupted by %s at instruction %d:' % (op, type(exc).__name__, at), world.log)
        if a.fault_fired:
            fired += 1
            env.fault(type(exc).__name__)
            if r[0] == 'ok':
                env.fail('swallowed', '%r at instruction %d of %r was swallowed; the call returned %s' % (exc, at, op, core.show(core.outcome_of(r))))
            if r[1] is not exc:
                env.fail('replaced', '%r at instruction %d of %r was replaced by %s' % (exc, at, op, core.show(core.outcome_of(r))))
        else:
            env.probe('call ended before the interruption')
            env.same(core.outcome_of(r), s.want(op), 'differs', lambda: 'call that was not interrupted: %r' % op)
        env.check(C.canon(x) == before, 'input-modified', lambda: 'the input of the interrupted call was modified: %r' % op)
        for p, rs in zip(others, results):
            for o, q in zip(p, rs):
                env.ops += 1
                env.same(core.outcome_of(q), s.want(o), 'other-thread-differs', lambda: 'another thread: %r' % o)
    env.nontrivial = fired > 0
    order = ch.shuffled(s.pool)
    if ch.flag(50):
        order.insert(0, op)
    for o in order + order[:1]:
        env.ops += 1
        want = s.want(o)
        node.activate()
        got = core.outcome_of(s.do(node, obj, o))
        env.ev('later:', repr(o), '->', core.show(got, 200))
        env.same(got, want, 'later-differs', lambda: 'after the interruption: %r' % o)
    battery.check(env, w, node, obj, s.load, 'later-differs', 'after the interruptions')
