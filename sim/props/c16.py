"""C16: nodes with different versions of a schema exchange messages."""
import copy
import json

from .. import core
from .. import canon as C
from ..schema import PRELUDE, Basic, Dct, Field, NewT, Obj, Seq, Tup, Uni, gen_json, sayable
from ..work import Op, Work, deep, draw_cfg

BLOCK = 100
RUNS = {'quick': 13000, 'thorough': 150000}
RULE = ('one run: a drawn schema in 2-3 versions (fields missing, with and without default, with other defaults), nodes of each version with long-lived '
        'loaders and dumpers, 6-20 messages written by drawn nodes and delivered to drawn nodes - reordered, duplicated, losing and gaining fields at any '
        'depth; each is read as the value, or refused for the fields, known by construction; non-trivial: messages were read by another version, some '
        'accepted and some refused')
STUBS = 'the network between the nodes; processes are copies of the modules'
ASSUMPTIONS = ['types of fields are the same in all versions', 'unions are optionals or tagged']


def default_av(f):
    return [] if f.default[0] == 'factory' else f.default[1]


class Versions:
    def __init__(self, w, ch, n):
        self.w = w
        self.classes = w.s.classes()
        self.per = []
        self.code = []
        for v in range(n):
            fields = {}
            for c in self.classes:
                fs = []
                for f in c.fields:
                    tagf = type(f.t).__name__ == 'LitT' and f.required() and f.name in ('type', 'kind')
                    if v and not tagf and ch.flag(25):
                        continue
                    f = copy.copy(f)
                    if v and not tagf:
                        if ch.flag(20):
                            # required in one version, not in the other
                            if c.kind == 'td':
                                f.optional = 'nontotal' in c.style or not f.optional
                            elif f.default is not None:
                                f.default = None
                            else:
                                w.gen.force_default(c, f)
                        elif f.default is not None and ch.flag(25):
                            f.default = None
                            w.gen.force_default(c, f)
                    fs.append(f)
                if c.kind != 'td':
                    fs.sort(key=lambda f: f.default is not None)
                fields[c] = fs
            self.per.append(fields)
        for v in range(n):
            self.use(v)
            self.code.append(compile(w.s.src(), '<schema>', 'exec', dont_inherit=True))
            w.env.ev('version %d:\n%s' % (v, w.s.src()[len(PRELUDE):]))

    def use(self, v):
        for c, fs in self.per[v].items():
            c.fields = fs


class Issue:
    def __init__(self, kind, names):
        self.kind = kind
        self.names = names

    def __repr__(self):
        return '%s %s' % (self.kind, sorted(self.names))


def expect(vs, writer, reader, strict, cfg, t, av, doc, issues):
    """What a reader makes of a document: the abstract value, and what is wrong with it."""
    go = lambda t, av, doc: expect(vs, writer, reader, strict, cfg, t, av, doc, issues)
    while isinstance(t, NewT):
        t = t.t
    if isinstance(t, Uni):
        return [av[0], go(t.ts[av[0]], av[1], doc)]
    if isinstance(t, Seq):
        return [go(t.t, a, d) for a, d in zip(av, doc)]
    if isinstance(t, Tup):
        return [go(x, a, d) for x, a, d in zip(t.ts, av, doc)]
    if isinstance(t, Dct):
        r = []
        for k, a in av:
            dk = t.k.doc(k, cfg)
            if dk not in doc:
                # as JSON writes it
                dk = str(dk)
            r.append((k, go(t.v, a, doc[dk])))
        return r
    if isinstance(t, Obj):
        wf = {f.name: f for f in vs.per[writer][t.cls]}
        rf = vs.per[reader][t.cls]
        keys = {f.key(cfg) for f in rf}
        extra = [k for k in doc if k not in keys]
        if strict and extra:
            issues.append(Issue('unknown', set(extra)))
        r = {}
        missing = set()
        for f in rf:
            k = f.key(cfg)
            if k in doc:
                r[f.name] = go(f.t, av[f.name] if f.name in av else default_av(wf[f.name]), doc[k])
            elif f.required():
                missing.add((f.name, k))
        for n, k in missing:
            issues.append(Issue('missing', {n, k}))
        return r
    return av


EXTRA = ('zz_extra', 'Q0', '', 'extra field', 'q0_C', '_id', '__type', '$schema', '@context', '_', '__class__', '__dict__', 'self', 'cls', 'value', 'type_', 'None',
         '0', 'x-note', '.', '#', 'é', 'type ', 'comment', '//', '__comment__', 'version', 'id', 'kwargs', 'args', '$ref', 'xmlns', '?', '\x00', 'A' * 300)


def every(cls, vs):
    """All names of the fields of a class, in all versions."""
    for fields in vs.per:
        for f in fields.get(cls, ()):
            yield [f.name, f.key(vs.w.cfg)] + list((f.mangle or {}).values())
    for f in cls.fields:
        yield [f.name] + list((f.mangle or {}).values())
    b = cls
    while b is not None:
        for n in b.noinit:
            yield [n[0]] + list((n[3] or {}).values())
        b = b.base


def transit(ch, cfg, t, av, doc, env, vs):
    """Fields lost and added on the way."""
    while isinstance(t, NewT):
        t = t.t
    if isinstance(t, Uni):
        return transit(ch, cfg, t.ts[av[0]], av[1], doc, env, vs)
    if isinstance(t, Obj):
        r = {}
        sub = {s[-1]: (ft, a) for s, ft, a, _ in t.children(av, doc, cfg)}
        tags = {f.key(cfg) for f in t.cls.fields if f.name in ('type', 'kind')}
        for k, d in doc.items():
            if k not in tags and ch.flag(12):
                env.fault('field lost')
                continue
            r[k] = transit(ch, cfg, sub[k][0], sub[k][1], d, env, vs) if k in sub else d
        if ch.flag(15):
            k = ch.pick(EXTRA)
            if ch.flag(50):
                # a name close to one that is known
                f = ch.pick(t.cls.fields) if t.cls.fields else None
                if f is not None:
                    n = ch.pick([f.name, f.key(cfg)])
                    k = ch.pick(['_%s', '__%s', '%s_', '%s ', ' %s', '$%s', '@%s', 'x-%s', '%s.x', '.%s', '%sz', '#%s', '%s-', '-%s', '%s?', 'is_%s', '%s\x00', '//%s']) % n
            if k not in {x for c in every(t.cls, vs) for x in c}:
                r[k] = gen_json(ch, 2, 'json')
            env.fault('field added')
        return r
    if isinstance(t, Seq):
        return [transit(ch, cfg, t.t, a, d, env, vs) for a, d in zip(av, doc)]
    if isinstance(t, Tup):
        return [transit(ch, cfg, x, a, d, env, vs) for x, a, d in zip(t.ts, av, doc)]
    if isinstance(t, Dct):
        r = dict(doc)
        for s, ft, a, d in t.children(av, doc, cfg):
            r[s[-1]] = transit(ch, cfg, ft, a, d, env, vs)
        return r
    return doc


def texts(e, depth=0):
    yield str(e.args[0]) if e.args else ''
    if depth < 30:
        for x in getattr(e, 'exceptions', ()):
            yield from texts(x, depth + 1)


def run(env):
    ch = env.ch
    cfg = draw_cfg(ch, json=True, extra=False)
    cfg.failonextra = False

    def schema(g):
        g.unions = 'optional'
        g.unique_names = True
        g.inherit = False
        g.recursive = ch.flag(30)
        for _ in range(1 + ch.draw(3)):
            g.cls(1, recursive=g.recursive and ch.flag(30))
        if ch.flag(40):
            u = g.tagged()[0]
            g.s.roots.append(u)
            if ch.flag(50):
                g.s.roots.append(Seq('list', u, False))
        for _ in range(1 + ch.draw(2)):
            g.s.roots.append(Obj(ch.pick(g.objs)) if ch.flag(70) else g.type(2))
        return g.s
    w = Work(env, cfg, schema)
    n = 2 + ch.flag(40)
    sets = 'et[' in w.s.src()[len(PRELUDE):]
    vs = Versions(w, ch, n)
    nodes = [env.node(c) for c in vs.code]
    loaders = {}
    dumpers = {}
    for v, node in enumerate(nodes):
        node.activate()
        kw = cfg.loader_kw()
        for strict in (False, True):
            loaders[v, strict] = node.Loader(**dict(kw, failonextra=strict))
        dumpers[v] = [node.Dumper(**dict(cfg.dumper_kw(), hidedefault=h)) for h in (False, True)]
    network = []
    accepted = refused = crossed = 0
    for k in range(ch.rng_int(4, 14)):
        v = ch.draw(n)
        vs.use(v)
        o = w.good_op(k)
        t = w.roots[o.root]
        doc = o.doc
        if not sets and ch.flag(50):
            nodes[v].activate()
            d = ch.pick(dumpers[v])
            r = core.call(d.dump, t.real(o.av, nodes[v].schema))
            if r[0] != 'ok':
                env.fail('not-dumped', '%r: %s' % (o, core.show(core.outcome_of(r), 1000)))
            doc = r[1]
            o.how = 'dumped'
        doc = json.loads(json.dumps(doc))
        if ch.flag(40):
            doc = transit(ch, cfg, t, o.av, doc, env, vs)
            o.how += ', changed in transit'
        o.doc = doc
        env.kinds[o.how] += 1
        network.append((v, o))
        if ch.flag(15):
            network.append((v, o))
            env.fault('message duplicated')

    def receive(v, o, reader, strict, what):
        nonlocal accepted, refused, crossed
        t = w.roots[o.root]
        issues = []
        av = expect(vs, v, reader, strict, cfg, t, o.av, o.doc, issues)
        vs.use(reader)
        node = nodes[reader]
        node.activate()
        r = core.call(loaders[reader, strict].load, deep(o.doc), node.schema['R%d' % o.root])
        env.ops += 1
        crossed += v != reader
        got = core.outcome_of(r)
        say = lambda: '%s written by version %d, read by version %d%s: %r' % (what, v, reader, ' with failonextra' if strict else '', o)
        env.ev(say(), '->', core.show(got, 200), repr(issues))
        if not issues:
            accepted += 1
            want = ('ok', C.canon(t.real(av, node.schema)))
            env.same(got, want, 'changed', say)
        else:
            refused += 1
            env.check(got[0] == 'err', 'accepted', lambda: '%s\n  is loaded as %s\n  although: %s' % (say(), core.show(got, 1500), issues))
            env.check(isinstance(r[1], node.exc.TypedloadException), 'other-error', lambda: '%s\n  gives %s' % (say(), core.show(got, 1500)))
            names = set().union(*[i.names for i in issues])
            ts = '\n'.join(texts(r[1]))
            env.check(any(str(x) in ts for x in names), 'not-named', lambda: '%s\n  gives %s\n  which does not name any of: %s' % (say(), core.show(got, 1500), issues))
    order = ch.shuffled(network) if ch.flag(70) else network
    if order != network:
        env.fault('messages reordered')
    for i, (v, o) in enumerate(order):
        reader = ch.draw(n)
        receive(v, o, reader, ch.flag(35), '%d:' % i)
    # What was refused does not matter any more
    for v, o in ch.shuffled(network)[:3]:
        receive(v, o, ch.draw(n), ch.flag(35), 'again:')
    env.nontrivial = accepted > 0 and refused > 0 and crossed > 0
