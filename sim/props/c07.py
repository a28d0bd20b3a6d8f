"""C07: streams, and their failures."""
from .. import core, streams
from .. import canon as C
from ..locate import walk
from ..schema import POISONS
from ..work import Work, draw_cfg

BLOCK = 250
RUNS = {'quick': 24000, 'thorough': 400000}
RULE = ('one run: drawn schema and settings, documents in which lists are drawn kinds of iterables (generators, one-shot and restartable '
        'iterators, __getitem__ only, views, ...) and dictionaries may be mappings of a class of their own; loads in turns or from several threads of '
        'a shared loader; a source (or mapping) fails after a drawn number of deliveries, or delivers a bad element at a drawn position; '
        'then everything is loaded again without faults; non-trivial: a stream was consumed, and a fault fired')
STUBS = 'the input streams (simulated sources, which deliver, yield to other threads and fail as drawn)'
ASSUMPTIONS = ['a failing source does not raise TypeError, a failing mapping does not raise TypeError, ValueError or AttributeError',
               'no streams below unions with several containers among their members']


def check_consumed(env, st, what):
    for t in st.tapes:
        env.check(t.opened == 1, 'iterated-again', lambda: '%s: the source %s was iterated %d times' % (what, t.name, t.opened))
        env.check(t.delivered == len(t.items) and t.ended >= 1, 'not-consumed',
                  lambda: '%s: the source %s delivered %d of %d' % (what, t.name, t.delivered, len(t.items)))


def run(env):
    ch = env.ch
    w = Work(env, draw_cfg(ch, json=False, extra=False), allow_any=False, lists=True)
    node = w.node()
    node.activate()
    loader = w.loader(node)
    nops = ch.rng_int(1, 4)
    ops = [w.good_op(i) for i in range(nops)]
    consumed = fired = 0

    def doc_of(o, st):
        st.tapes.clear()
        st.maptapes.clear()
        return st.make(w.roots[o.root], o.av, o.doc)

    def expected(o):
        return ('ok', C.canon(w.value(node, o)))

    def good(o, what):
        nonlocal consumed
        st = o.streamer
        r = core.call(loader.load, doc_of(o, st), node.schema['R%d' % o.root])
        env.ops += 1
        got = core.outcome_of(r)
        env.ev(what, repr(o), 'streams', [t.name for t in st.tapes], '->', core.show(got, 200))
        env.same(got, expected(o), 'wrong-value', lambda: '%s: %r, streams %r' % (what, o, [t.name for t in st.tapes]))
        check_consumed(env, st, repr(o))
        consumed += len(st.tapes)
    for o in ops:
        o.streamer = streams.Streamer(ch, w.cfg, maps=ch.pick([0, 15, 40]), streams=ch.pick([60, 90, 30]))
    threads = nops > 1 and ch.flag(30)
    if threads:
        world = env.world(ch.pick(['few', 'mid']))
        rs = [None] * nops
        docs = [doc_of(o, o.streamer) for o in ops]
        # a source of one of them may fail
        victim = None
        if ch.flag(50):
            victim = ch.draw(nops)
            ts = ops[victim].streamer.tapes
            if ts:
                t = ch.pick(ts)
                t.fail_at = ch.draw(len(t.items) + 2) - 1
                t.exc = ch.pick(streams.FAILURES)

        def actor(i):
            def fn(a):
                a.begin()
                try:
                    rs[i] = core.call(loader.load, docs[i], node.schema['R%d' % ops[i].root])
                finally:
                    a.end()
            return fn
        try:
            world.run_threads([actor(i) for i in range(nops)])
        finally:
            env.done_world(world)
        env.ilv = world.interleaving()
        env.fault('preemption', world.switches)
        for i, (o, r) in enumerate(zip(ops, rs)):
            env.ops += 1
            got = core.outcome_of(r)
            env.ev('thread %d:' % i, repr(o), [t.name for t in o.streamer.tapes], '->', core.show(got, 200))
            f = [t for t in o.streamer.tapes if t.fired]
            if f:
                fired += 1
                env.fault(type(f[0].raised).__name__)
                env.check(r[0] == 'exc', 'failure-hidden', lambda: 'the source %s failed with %r and load returned %s' % (f[0].name, f[0].raised, core.show(got)))
            else:
                env.same(got, expected(o), 'wrong-value', lambda: 'thread %d: %r' % (i, o))
                check_consumed(env, o.streamer, repr(o))
                consumed += len(o.streamer.tapes)
    else:
        for o in ops:
            good(o, 'load')
    for k in range(ch.rng_int(1, 4)):
        o = ch.pick(ops)
        st = o.streamer
        mode = ch.weighted([(5, 'fail'), (3, 'bad'), (2, 'map')])
        doc = doc_of(o, st)
        if mode == 'map' and st.maptapes:
            t = ch.pick(st.maptapes)
            t.fail_at = ch.draw(len(t.items) * 2 + 3)
            t.exc = ch.pick(streams.MAP_FAILURES)
        elif mode == 'bad':
            ts = [t for t in st.tapes if not t.union and t.items]
            if not ts:
                continue
            t = ch.pick(ts)
            ps = [p for p in POISONS if t.type.t.rejects(p, w.cfg)]
            if not ps:
                continue
            i = ch.draw(len(t.items))
            bad = t.items[i] = ch.pick(ps)
            r = core.call(loader.load, doc, node.schema['R%d' % o.root])
            env.ops += 1
            fired += 1
            env.fault('bad element')
            env.ev('bad element %d of %s' % (i, t.name), repr(o), '->', core.show(core.outcome_of(r), 300))
            env.check(r[0] == 'exc' and isinstance(r[1], node.exc.TypedloadException), 'bad-accepted',
                      lambda: '%r: element %d of %s is %r, and load gave %s' % (o, i, t.name, bad, core.show(core.outcome_of(r))))
            e = r[1]
            pos = [x.annotation[1] for x in e.trace if x.annotation and x.annotation[0].value == 'index' and x.value is t.source]
            env.check(pos == [i], 'wrong-position', lambda: '%r: the bad element of %s is %d, the error says %r' % (o, t.name, i, pos))
            env.check(t.delivered == i + 1, 'read-beyond', lambda: '%r: element %d of %s is bad, and %d elements were read' % (o, i, t.name, t.delivered))
            continue
        elif st.tapes:
            t = ch.pick(st.tapes)
            t.fail_at = ch.draw(len(t.items) + 2) - 1
            t.exc = ch.pick(streams.FAILURES)
        else:
            continue
        wide = ch.flag(25)
        r = core.call(loader.load, doc, w.or_anything(node, o.root) if wide else node.schema['R%d' % o.root])
        env.ops += 1
        got = core.outcome_of(r)
        env.ev('%s fails at %d:' % (t.name, t.fail_at), repr(o), 'or anything' if wide else '', '->', core.show(got, 300))
        if t.fired:
            fired += 1
            env.fault(type(t.raised).__name__)
            env.check(r[0] == 'exc', 'failure-hidden', lambda: '%r: %s failed with %r after %d deliveries, and load returned %s' % (
                o, t.name, t.raised, t.fail_at, core.show(got)))
        elif not wide:
            env.same(got, expected(o), 'wrong-value', lambda: '%r, no failure' % o)
    for o in ops:
        good(o, 'in the end')
    env.nontrivial = consumed > 0 and fired > 0
