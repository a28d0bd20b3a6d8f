"""C03: a load does not depend on the history of the loader."""
from .. import battery, churn, core
from ..work import Work, Op, EMPTY, deep, twin
from .. import canon as C

BLOCK = 120
RUNS = {'quick': 9000, 'thorough': 120000}
RULE = ('one run: drawn schema and settings, a history of 3-40 good and damaged loads on one long-lived loader (in a part of the runs '
        'also hundreds of loads of further types, or of classes that come and go), each compared with a brand new loader in a pristine process, some repeated '
        'later, in another order, or with results edited in between; non-trivial: at least one load failed and one succeeded before the last one')
STUBS = 'none; the history of operations and the corruption of documents are the simulated environment'
ASSUMPTIONS = ['the reference is the same code on a brand new loader in a pristine copy of the modules',
               'types with the same name have no forward references']


def spoil(v, depth=0):
    """What a caller may do with a result of its own: edit it."""
    t = type(v)
    if depth > 6:
        return
    if t is list:
        for i in v:
            spoil(i, depth + 1)
        v.append('spoiled')
    elif t is dict:
        for i in list(v.values()):
            spoil(i, depth + 1)
        v['spoiled'] = 'spoiled'
    elif t is set:
        v.add('spoiled')
    elif isinstance(v, tuple):
        for i in v:
            spoil(i, depth + 1)
    elif hasattr(t, '__dataclass_fields__') or hasattr(t, '__attrs_attrs__'):
        names = list(t.__dataclass_fields__) if hasattr(t, '__dataclass_fields__') else [a.name for a in t.__attrs_attrs__]
        for n in names:
            try:
                spoil(getattr(v, n), depth + 1)
            except AttributeError:
                pass
        for n in names[:1]:
            try:
                setattr(v, n, 'spoiled')
            except Exception:
                pass


def run(env):
    ch = env.ch
    if ch.flag(3):
        return churn.history(env, True)
    many = ch.pick([150, 300]) if ch.flag(4) else 0
    two = ch.flag(12)
    if two:
        w = Work(env, manytypes=many, wild=35, odd=ch.flag(50), recursive=False)
    else:
        w = Work(env, manytypes=many, wild=35, odd=ch.flag(50), hooks=ch.flag(20))
    n = ch.weighted([(4, 4), (4, 8), (2, 16)])
    pool = w.ops(n, bad=40)
    other = []
    if two:
        # Types with the same names as the others (and no forward references, which would find the wrong ones)
        w2 = Work(env, w.cfg, wild=35, odd=ch.flag(50), recursive=False)
        other = w2.ops(ch.rng_int(1, 4), bad=25)
        env.fault('types with the same names')
    for o in list(pool):
        if ch.flag(20):
            # a document that is equal to another one, or nearly so
            k = ch.draw(7)
            pool.append(Op('twin %s' % o.key, o.root, twin(deep(o.doc), k), False, 'twin', None))
    node = w.node()
    node.activate()
    loader = w.loader(node)
    node2 = node.with_schema(w2.code, 'schema' if w.lone() and w2.lone() and ch.flag(50) else 'schema2') if two else None
    if ch.flag(10):
        # A long life, of one load or of all of them in turns
        sane = [o for o in pool if o.good]
        wild = [o for o in sane if o.root >= w.nsane]
        turns = ch.shuffled(ch.pick([pool, pool, sane or pool, wild or sane or pool]))
        if ch.flag(60):
            turns = turns[:1 + ch.draw(2)]
        times = ch.weighted([(2, 120), (2, 300), (4, 1100), (3, 2500), (1, 5000)])
        for i in range(times):
            w.do_load(node, loader, turns[i % len(turns)])
        env.ops += times
        env.ev('%d times' % times, repr(turns))
        env.fault('long history')
    length = ch.rng_int(2, n + 6)
    oks = errs = 0
    spoiling = ch.flag(25)
    for step in range(length):
        if other and ch.flag(40):
            o = ch.pick(other)
            want = w2.pristine(o)
            node.activate()
            r = w2.do_load(node2, loader, o)
        else:
            o = ch.pick(pool)
            want = w.pristine(o)
            node.activate()
            r = w.do_load(node, loader, o)
        env.ops += 1
        got = core.outcome_of(r)
        env.ev('%d:' % step, repr(o), '->', core.show(got, 200))
        env.same(got, want, 'history-dependent', lambda: 'step %d: %r' % (step, o))
        if step < length - 1:
            oks += got[0] == 'ok'
            errs += got[0] == 'err'
        if spoiling and r[0] == 'ok':
            try:
                spoil(r[1])
                env.fault('result edited by the caller')
            except TypeError:
                pass
        if got[0] == 'err' and got[1][0] == 'foreign':
            env.probe('exception that is not a load error')
        if many and step == length // 2:
            for i, t in enumerate(node.schema['M']):
                x = EMPTY[i % 5]
                if core.call(loader.load, deep(x), t)[0] != 'ok':
                    env.fail('history-dependent', 'loading %r into %r' % (x, t))
            env.ops += many
            env.ev('loaded %d other types' % many)
            env.fault('many other types')
    env.nontrivial = oks > 0 and errs > 0
    # All of it again, in another order
    for o in ch.shuffled(pool)[:4]:
        env.ops += 1
        want = w.pristine(o)
        node.activate()
        env.same(core.outcome_of(w.do_load(node, loader, o)), want, 'history-dependent', lambda: 'in the end: %r' % o)
    battery.check(env, w, node, loader, True, 'history-dependent', 'in the end')
    fl = sum(1 for o in pool if not o.good)
    env.fault('damaged document', fl)
