"""Two operations on one object, one of them held up right where it writes to something others can see."""
from . import core


def duel(env, make, a, b, rounds, label, deep=False):
    """
    make() -> a new shared object, a(obj) and b(obj) -> results. Yields (what, result of a, result of b, object)
    for a number of drawn schedules: a runs up to one of the writes it makes (places in the code are drawn
    first, then how often they have been passed), then b runs, in a part of the schedules also held up at one
    of its writes, then both go on.
    """
    ch = env.ch

    def measure(fn):
        world = env.world('sites', deep)
        obj = make()
        world.main.begin()
        try:
            fn(obj)
        finally:
            world.main.end()
        env.done_world(world)
        places = {}
        for count, at in zip(world.sites, world.where):
            places.setdefault(at, []).append(count)
        return list(places.values())

    pa, pb = measure(a), measure(b)
    if not pa:
        return

    def instants(places, n):
        r = []
        for _ in range(n):
            # the last places are often the ones that clean up, or report an error
            p = ch.pick(places[-5:] if ch.flag(30) else places)
            r.append(max(1, (p[-1] if ch.flag(40) else ch.pick(p)) + ch.weighted([(6, 0), (2, 1), (1, 2), (1, -1)])))
        return sorted(r)
    for k in range(rounds):
        plans = [instants(pa, ch.weighted([(5, 1), (2, 2)])), instants(pb, 1) if pb and ch.flag(45) else []]
        obj = make()
        world = env.world('few', deep)
        out = [None, None]

        def actor(i, fn):
            def run(t):
                t.begin(plan=plans[i])
                try:
                    out[i] = fn(obj)
                finally:
                    t.end()
            return run
        env.ev('%s held up at %r' % (label, plans))
        try:
            world.run_threads([actor(0, a), actor(1, b)], first=0)
        finally:
            env.done_world(world)
            for x in world.log:
                env.ev(repr(x))
        env.fault('held up at a write', world.switches)
        env.switched = getattr(env, 'switched', 0) + world.switches
        yield plans, out[0], out[1], obj
