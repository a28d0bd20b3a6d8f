"""C04: a dump does not depend on the history of the dumper."""
from .. import battery, churn, core
from ..work import Work, become
from .c03 import spoil

BLOCK = 120
RUNS = {'quick': 7500, 'thorough': 120000}
RULE = ('one run: drawn schema and settings, a history of 3-20 dumps of supported and unsupported values on one long-lived dumper, the '
        'dumped objects and the results being edited in between (in a part of the runs, dumps of classes that come and go); each compared with a brand new dumper in a pristine process; '
        'non-trivial: at least two dumps before the last one and at least one failure or edit')
STUBS = 'none; the history of operations and the edits are the simulated environment'
ASSUMPTIONS = ['the reference is the same code on a brand new dumper in a pristine copy of the modules']


def run(env):
    ch = env.ch
    if ch.flag(3):
        return churn.history(env, False)
    w = Work(env, odd=ch.flag(50), hooks=ch.flag(20))
    n = ch.weighted([(4, 3), (4, 6), (2, 10)])
    pool = [w.dump_op(i, bad=20, derived=25) for i in range(n)]
    for o in list(pool):
        if ch.flag(20):
            # a value that is equal to another one, or nearly so
            t = w.twin_dump_op(o, ch.draw(7))
            pool.append(t)
    node = w.node()
    node.activate()
    dumper = w.dumper(node)
    if ch.flag(6):
        # A long life
        turns = ch.shuffled(pool)
        if ch.flag(60):
            turns = turns[:1 + ch.draw(2)]
        times = ch.pick([120, 300, 1100, 1100, 2500])
        for i in range(times):
            w.do_dump(node, dumper, turns[i % len(turns)])
        env.ops += times
        env.ev('%d times' % times, repr(turns))
        env.fault('long history')
    other = []
    if ch.flag(12):
        # Types with the same names as the others
        w2 = Work(env, w.cfg, odd=ch.flag(50))
        node2 = node.with_schema(w2.code, 'schema' if w.lone() and w2.lone() and ch.flag(50) else 'schema2')
        other = [w2.dump_op(i, bad=10, derived=10) for i in range(ch.rng_int(1, 4))]
        env.fault('types with the same names')
    length = ch.rng_int(2, n + 6)
    edits = fails = 0
    keep = []
    kept = []
    for step in range(length):
        if other and ch.flag(40):
            o = ch.pick(other)
            want = w2.pristine_dump(o)
            node.activate()
            v = w2.value(node2, o)
            r = w2.do_dump(node2, dumper, o, v)
        else:
            o = ch.pick(pool)
            want = w.pristine_dump(o)
            node.activate()
            v = w.value(node, o)
            if kept and ch.flag(25):
                # An object that was dumped before, with another content
                was = ch.pick(kept)
                if type(was) is type(v):
                    v = become(was, v)
                    env.fault('dumped object changed')
            r = w.do_dump(node, dumper, o, v)
            if type(v) not in (int, str, float, bool):
                kept.append(v)
        env.ops += 1
        got = core.outcome_of(r)
        env.ev('%d:' % step, repr(o), '->', core.show(got, 200))
        env.same(got, want, 'history-dependent', lambda: 'step %d: %r' % (step, o))
        if got[0] == 'err':
            fails += 1
            env.fault('unsupported value')
        if ch.flag(35):
            try:
                spoil(v)
            except TypeError:
                pass
            edits += 1
            env.fault('dumped object edited')
        if r[0] == 'ok' and ch.flag(35):
            try:
                spoil(r[1])
            except TypeError:
                pass
            edits += 1
            env.fault('result edited')
        if ch.flag(50):
            keep.append(v)      # address reuse or not
    env.nontrivial = length > 2 and edits + fails > 0
    for o in ch.shuffled(pool)[:4]:
        env.ops += 1
        want = w.pristine_dump(o)
        node.activate()
        env.same(core.outcome_of(w.do_dump(node, dumper, o)), want, 'history-dependent', lambda: 'in the end: %r' % o)
    battery.check(env, w, node, dumper, False, 'history-dependent', 'in the end')
