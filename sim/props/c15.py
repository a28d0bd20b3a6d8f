"""C15: tagged unions."""
import collections
import json
import types

from .. import core
from .. import canon as C
from ..schema import Basic, Dct, Field, Obj, Seq, Tup, Uni, damage, put
from ..work import Op, Work, deep, draw_cfg
from .c05 import KINDS, pick_instant

BLOCK = 60
RUNS = {'quick': 7000, 'thorough': 150000}
RULE = ('one run: 2-6 drawn object types (of drawn kinds, some inheriting, some with further Literal fields) told apart by a tag, unions of all or some of '
        'them in drawn orders, alone or inside containers, objects and optionals; 6-24 documents - valid, damaged, with a tag nobody has, with the tag '
        'of another member - loaded by one loader in turns, in part of the runs by 2-3 threads or with loads cut by an asynchronous exception; '
        'valid ones load as the member and the data known by construction, unknown tags are refused; '
        'non-trivial: at least two members were loaded and something was refused or interrupted, or threads were switched')
STUBS = 'thread scheduling and asynchronous exceptions in part of the runs'
ASSUMPTIONS = ['the tag is present in the documents (it may be hidden when it has a default)']

WRAPPERS = ('list', 'dict', 'tuple', 'optional', 'bare', 'bare', 'bare')


class Where:
    """A root: a union in some container."""
    def __init__(self, uni, how):
        self.uni = uni
        self.how = how

    def t(self):
        u, h = self.uni, self.how
        return {'bare': u, 'list': Seq('list', u, False), 'dict': Dct(Basic('str'), u, False), 'tuple': Tup([Basic('int'), u], False),
                'optional': Uni(u.ts + [Basic('none')], 'Union')}[h]

    def put(self, av, doc):
        """(av, doc) of the root with that member inside"""
        h = self.how
        if h == 'list':
            return [av], [doc]
        if h == 'dict':
            return [('k', av)], {'k': doc}
        if h == 'tuple':
            return [3, av], [3, doc]
        return av, doc


def run(env):
    ch = env.ch
    cfg = draw_cfg(ch, extra=False)
    cfg.namespaces = True
    if ch.flag(15):
        cfg.extra['uniondebugconflict'] = True
    if ch.flag(6):
        cfg.extra['pep563'] = True
    info = []
    wheres = []

    def schema(g):
        if cfg.extra.get('uniondebugconflict'):
            # it also is about the unions inside
            g.unions = g.recursive = False
        for _ in range(ch.draw(3)):
            g.cls(1)
        members, tag, own = g.tagged_members()
        info.extend([members, tag, own])
        for _ in range(1 + ch.draw(4)):
            ms = ch.shuffled(members)
            if len(ms) > 2 and ch.flag(30):
                ms = ms[:2 + ch.draw(len(ms) - 2)]
            wheres.append(Where(Uni([Obj(c) for c in ms], ch.pick(['Union', 'pipe'])), ch.pick(WRAPPERS)))
        g.s.roots.extend(x.t() for x in wheres)
        return g.s
    w = Work(env, cfg, schema)
    members, tag, own = info
    everything = [v for vs in own.values() for v in vs]

    def draw(k):
        r = ch.draw(len(wheres))
        x = wheres[r]
        i = ch.draw(len(x.uni.ts))
        m = x.uni.ts[i]
        av = m.gen(ch, 2)
        f = [f for f in m.cls.fields if f.name == tag][0]
        av.setdefault(tag, f.t.gen(ch, 0))
        doc = m.doc(av, cfg, ch)
        o = Op(k, r, None, True, 'good')
        sort = ch.weighted([(6, 'good'), (2, 'unknown tag'), (1, 'tag of another'), (1, 'damage')])
        o.extra = None
        if sort != 'good':
            if not isinstance(doc, dict):
                doc = dict(vars(doc))
            o.good = False
            o.how = sort
            key = f.key(cfg)
            if sort == 'unknown tag':
                bad = ch.pick(['nobody', 12345, [], {}, 'MSG', '', '0', [5], 2.5, 'type', m.cls.name, (), str(doc[key]) + ' ', None])
                if bad in everything:
                    bad = 'nobody at all'
                doc[key] = bad
            elif sort == 'tag of another':
                other = ch.pick(x.uni.ts)
                if other is m:
                    o.how = sort = 'good'
                    o.good = True
                else:
                    doc[key] = ch.pick(own[other.cls.name])
                    o.extra = other.cls.name
            else:
                _, doc = damage(doc, ch)
        if ch.flag(6) and type(doc) is dict:
            wrap = ch.pick([collections.OrderedDict, collections.UserDict, types.MappingProxyType])
            if not any(g.mangle for c in members for g in c.fields):
                doc = wrap(doc)
        o.av, o.doc = x.put([i, av], doc)
        if cfg.json and not isinstance(doc, (collections.UserDict, types.MappingProxyType)):
            try:
                o.doc = json.loads(json.dumps(o.doc))
            except (TypeError, ValueError):
                pass
        env.kinds[o.how] += 1
        return o
    ops = [draw(k) for k in range(ch.rng_int(6, 24))]
    node = w.node()
    node.activate()
    loader = w.loader(node)
    loaded = set()
    refused = 0

    def verify(o, r, what):
        nonlocal refused
        env.ops += 1
        got = core.outcome_of(r)
        env.ev(what, repr(o), '->', core.show(got, 200))
        x = wheres[o.root]
        if o.how == 'good':
            want = ('ok', C.canon(x.t().real(o.av, node.schema)))
            env.same(got, want, 'wrong', lambda: '%s %r' % (what, o))
            m = o.av
            while type(m) is not list or type(m[0]) is not int or len(m) != 2 or x.how == 'tuple' and m is o.av:
                m = m[-1][1] if type(m[-1]) is tuple else m[-1]
            loaded.add(x.uni.ts[m[0]].cls.name)
        elif o.how == 'unknown tag':
            env.check(got[0] == 'err', 'accepted', lambda: '%s %r was loaded as %s' % (what, o, core.show(got, 1500)))
            env.check(isinstance(r[1], node.exc.TypedloadException), 'accepted', lambda: '%s %r gave %s' % (what, o, core.show(got, 1500)))
            refused += 1
        elif o.how == 'tag of another' and got[0] == 'ok':
            v = r[1]
            v = v[0] if x.how == 'list' else v['k'] if x.how == 'dict' else v[1] if x.how == 'tuple' else v
            if type(v) is not dict:
                env.check(type(v).__name__ == o.extra, 'wrong', lambda: '%s %r was loaded as %s' % (what, o, core.show(got, 1500)))
        if got[0] == 'err':
            refused += 1

    mode = ch.weighted([(5, 'turns'), (3, 'threads'), (2, 'interrupts')])
    if mode == 'threads':
        nt = 2 + ch.draw(2)
        world = env.world(ch.pick(['few', 'mid', 'stores', 'fine']), ch.flag(10))
        parts = [ops[i::nt] for i in range(nt)]
        rs = [[] for _ in parts]

        def actor(i):
            def fn(a):
                for o in parts[i][:4]:
                    a.begin()
                    try:
                        rs[i].append(core.call(loader.load, o.doc, node.schema['R%d' % o.root]))
                    finally:
                        a.end()
            return fn
        try:
            world.run_threads([actor(i) for i in range(nt)])
        finally:
            env.done_world(world)
        env.ilv = world.interleaving()
        env.fault('preemption', world.switches)
        env.nontrivial = world.switches > 0
        for i, p in enumerate(parts):
            for o, r in zip(p, rs[i]):
                verify(o, r, 'thread %d:' % i)
    for i, o in enumerate(ops):
        t = node.schema['R%d' % o.root]
        if mode == 'interrupts' and ch.flag(30):
            n2 = w.node()
            n2.activate()
            l2 = w.loader(n2)
            world = env.world('sites')
            world.main.begin()
            try:
                core.call(l2.load, o.doc, n2.schema['R%d' % o.root])
            finally:
                world.main.end()
            env.done_world(world)
            total, sites = world.main.count, list(world.sites)
            node.activate()
            exc = ch.pick(KINDS)('injected')
            world = env.world('few')
            world.main.begin(fault_at=pick_instant(ch, total, sites), fault_exc=exc)
            try:
                r = core.call(loader.load, o.doc, t)
            finally:
                world.main.end()
            env.done_world(world)
            if world.main.fault_fired:
                env.fault(type(exc).__name__)
                refused += 1
                env.check(r[1] is exc, 'swallowed', lambda: '%r gave %s' % (exc, core.show(core.outcome_of(r))))
                env.ev('interrupted:', repr(o))
                continue
        else:
            r = core.call(loader.load, o.doc, t)
        verify(o, r, '%d:' % i)
    env.nontrivial = env.nontrivial or (len(loaded) > 1 and refused > 0)
