"""C10: where errors point to."""
import itertools
import re

from .. import core, hooks
from .. import canon as C
from ..locate import matches, poison_for, spots, walk
from ..schema import Basic, Dct, Obj, Seq, Tup, Uni, get, put
from ..work import Op, Work, deep, draw_cfg

BLOCK = 150
RUNS = {'quick': 13000, 'thorough': 250000}
RULE = ('one run: drawn schema and settings, a long-lived loader with a drawn history; a valid document is damaged at exactly one drawn place (an '
        'element, or the key of a dictionary) with something that is certainly refused there, something missing from it or too much, or a constructor that refuses it; the exceptions - in turns, or from several threads of '
        'the same loader - must name the path to it and hold it; non-trivial: a damaged element was below the root')
STUBS = 'none; the corruption of documents is the simulated environment; thread scheduling in part of the runs'
ASSUMPTIONS = ['below a union only members that leave no other member accepting the damaged document',
               'the value that follows a "value" annotation is the value itself, as the library documents by example']


def structure(ch, s, x, cfg):
    """What is there, with something missing or too much: the element is refused as a whole. (how, element) or None"""
    t = s.t
    if isinstance(t, Tup) and t.ts and type(x) in (list, tuple) and cfg.failonextra:
        return 'elements added', list(x) + [ch.pick([None, 1, 'x', []])]
    if isinstance(t, Obj) and type(x) is dict:
        needed = [f.key(cfg) for f in t.cls.fields if f.required() and f.key(cfg) in x]
        if needed and (ch.flag(60) or not cfg.failonextra):
            gone = ch.pick(needed)
            return 'field lost', {k: v for k, v in x.items() if k != gone}
        if cfg.failonextra:
            r = list(x.items())
            r.insert(ch.draw(len(r) + 1), ('zz-unknown', ch.pick([None, 1, 'x', []])))
            return 'field added', dict(r)
    return None


def renamed(t, p, cfg):
    """The element, with the fields under the names that they have in the class."""
    if not isinstance(t, Obj) or type(p) is not dict or not t.cls.mangled():
        return p
    names = {f.key(cfg): f.name for f in t.cls.fields}
    return {names.get(k, k): v for k, v in p.items()}


def printed(steps, text):
    """Is there a line with the path? One element after the other; with the types of unions and values of dictionaries in between."""
    for line in text.split('\n'):
        line = line.lstrip()
        if not line.startswith('Path: '):
            continue
        if all(x[0] in 'fiu' for x in steps):
            # (NewTypes and references are on the way, too)
            if (re.sub(r'\.(C\d+|None)(?=\.|$)', '', line[6:]) or '.') in ['.' + '.'.join(i) for i in itertools.product(*[label(x) for x in steps if x[0] in 'fi'])]:
                return True
            continue
        at = 6
        for x in steps:
            if x[0] in 'fi':
                found = [at + line[at:].index('.' + i) + 1 + len(i) for i in label(x) if '.' + i in line[at:]]
                if not found:
                    break
                at = min(found)
        else:
            return True
    return False


def label(x):
    return ['[%d]' % i if x[0] == 'i' else str(i) for i in x[1:]]


def run(env):
    ch = env.ch

    def schema(g):
        s = g.schema()
        if ch.flag(25):
            # unions below unions
            t = g.tagged(2)[0] if ch.flag(40) else ch.pick([Basic('int'), Tup([Basic('int'), Basic('float')], False), Obj(ch.pick(g.objs)) if g.objs else Basic('int')])
            for _ in range(2 + ch.draw(4)):
                if not isinstance(t, (Uni, Basic)):
                    t = Uni([t, Basic('none')], ch.pick(['Optional', 'Union']))
                t = [Seq('list', t, ch.flag(50)), Tup([Basic('int'), t], False), Dct(Basic('str'), t, False)][ch.draw(3)]
            s.roots.append(t)
        return s
    w = Work(env, draw_cfg(ch, extra=False), schema=schema, hooks=ch.flag(25))
    node = w.node()
    node.activate()
    loader = w.loader(node)
    cases = []
    for k in range(ch.rng_int(3, 10)):
        o = w.good_op(k)
        t = w.roots[o.root]
        ss = list(spots(t, o.av, o.doc, w.cfg))
        # the deeper, the better
        s = ch.pick(ss)
        if ch.flag(60):
            s2 = ch.pick(ss)
            if len(s2.steps) > len(s.steps):
                s = s2
        p = poison_for(ch, s, w.cfg)
        if p is None:
            continue
        p = deep(p[1])
        if isinstance(s.t, Tup) and s.t.ts and not s.key and type(get(o.doc, s.path)) in (list, tuple) and ch.flag(50):
            # it lost some of its elements
            p = list(get(o.doc, s.path)[:ch.draw(len(s.t.ts))])
        elif not s.key and ch.flag(40):
            broken = structure(ch, s, get(o.doc, s.path), w.cfg)
            if broken is not None:
                how, p = broken
                env.kinds[how] += 1
        if s.key:
            # the key is replaced, in its place
            o.extra = (s, p, rekey(o.doc, s.path, p))
        else:
            o.extra = (s, p, put(o.doc, s.path, p))
        cases.append(o)
    if not cases:
        return

    kept = []

    def verify(o, r, what, new=True):
        s, p, doc = o.extra
        env.ops += 1
        env.fault('damaged key' if s.key else 'damaged element')
        env.kinds['depth %d' % len(s.steps)] += 1
        env.ev(what, repr(o), 'with %r at %r' % (p, s.steps), '->', core.show(core.outcome_of(r), 300))
        env.check(r[0] == 'exc' and isinstance(r[1], node.exc.TypedloadException), 'not-refused',
                  lambda: '%s %r with %r at %r: %s' % (what, o, p, s.steps, core.show(core.outcome_of(r), 1000)))
        ways = list(walk(r[1]))
        held = [C.canon(p), C.canon(renamed(s.t, p, w.cfg))]
        env.check(any(matches(s.steps, path, doc, p) and C.canon(e.value) in held for path, e in ways), 'wrong-path',
                  lambda: '%s %r with %r at %r: the error leads to\n    %s' % (
                      what, o, p, s.steps, '\n    '.join('%r value %s' % (path, C.brief(e.value, 150)) for path, e in ways[:30])))
        if new:
            kept.append((o, r, core.outcome_of(r)))
            if ch.flag(60):
                # a program that reports it
                t = str(r[1])
                if sum(x == ('u',) for x in s.steps) > 1:
                    env.kinds['two unions %s' % (s.steps[0] == ('u',),)] += 1
                env.check(printed(s.steps, t), 'not-printed',
                          lambda: '%s %r with %r at %r: the path is not in the text of the error\n    %s' % (what, o, p, s.steps, t[:1500]))
                if ch.flag(40):
                    env.check(str(r[1]) == t, 'other-text', lambda: '%s %r with %r at %r: the text of the error changes from\n    %s\n  to\n    %s' % (
                        what, o, p, s.steps, t[:1500], str(r[1])[:1500]))
                    repr(r[1])
                    env.fault('error printed')
    history = [w.op(100 + i, bad=50) for i in range(ch.draw(3))] if ch.flag(40) else []
    for o in history:
        r = w.do_load(node, loader, o)
        env.ev('before:', repr(o), '->', core.show(core.outcome_of(r), 150))
    if len(cases) > 1 and ch.flag(25):
        world = env.world(ch.pick(['few', 'mid', 'stores']))
        parts = [cases[i::3] for i in range(3)]
        rs = {}

        def actor(part):
            def fn(a):
                for o in part:
                    x = deep(o.extra[2])
                    a.begin()
                    try:
                        rs[o.key] = core.call(loader.load, x, node.schema['R%d' % o.root])
                    finally:
                        a.end()
            return fn
        try:
            world.run_threads([actor(p) for p in parts if p])
        finally:
            env.done_world(world)
        env.ilv = world.interleaving()
        env.fault('preemption', world.switches)
        for o in cases:
            verify(o, rs[o.key], 'in a thread:')
    for o in cases:
        verify(o, core.call(loader.load, deep(o.extra[2]), node.schema['R%d' % o.root]), 'load:')
        if ch.flag(30):
            # the same document, undamaged, is fine
            env.same(core.outcome_of(w.do_load(node, loader, o)), ('ok', C.canon(w.value(node, o))), 'good-refused', lambda: repr(o))
    if w.s.hooks:
        for o in ch.shuffled(cases)[:3]:
            r = refused(env, w, node, loader, o)
            if r is not None:
                kept.append(r)
    if ch.flag(60):
        # The same errors again
        for o in ch.shuffled(cases):
            verify(o, core.call(loader.load, deep(o.extra[2]), node.schema['R%d' % o.root]), 'again:')
    # Errors of a while ago say what they said
    for o, r, was in kept:
        if o.extra is not None:
            verify(o, r, 'the error, later:', False)
        env.same(core.outcome_of(r), was, 'error-changed', lambda: 'the error of %r with %r at %r, later' % (o, o.extra and o.extra[1], o.extra and o.extra[0].steps))
    env.nontrivial = any(o.extra[0].steps for o in cases)


def refused(env, w, node, loader, o):
    """The constructor of an object refuses what it gets, which is fine otherwise."""
    ch = env.ch
    by_class = {}
    for s in spots(w.roots[o.root], o.av, o.doc, w.cfg):
        if isinstance(s.t, Obj) and not s.key and 'post_init__' in s.t.cls.extra_src:
            by_class.setdefault(s.t.cls.name, []).append(s)
    h = node.schema['_hook'] = hooks.Hooks()
    h.keep = True
    w.do_load(node, loader, o)
    ready = [(n, ss[0]) for n, ss in by_class.items() if len(ss) == 1 and sum(x.startswith(n + '.__') for x in h.where) == 1]
    if not ready:
        node.schema['_hook'] = None
        return None
    name, s = ch.pick(ready)
    h = node.schema['_hook'] = hooks.Hooks()
    cls = ch.pick([ValueError, TypeError])

    def then(where, value, obj):
        if where.startswith(name + '.__'):
            raise cls('out of order')
    h.then = then
    r = w.do_load(node, loader, o)
    node.schema['_hook'] = None
    env.ops += 1
    env.fault('constructor refuses')
    x = get(o.doc, s.path)
    env.ev('refused by the constructor of %s:' % name, repr(o), '->', core.show(core.outcome_of(r), 300))
    what = lambda: '%r, %s by %s at %r: %s' % (o, cls.__name__, name, s.steps, core.show(core.outcome_of(r), 1000))
    env.check(r[0] == 'exc' and isinstance(r[1], node.exc.TypedloadException), 'not-refused', what)
    held = [C.canon(x), C.canon(renamed(s.t, x, w.cfg))]
    env.check(any(matches(s.steps, path, o.doc, x) and C.canon(e.value) in held and isinstance(e, cls) and 'out of order' in str(e.args)
                  for path, e in walk(r[1])), 'wrong-path', lambda: what() + '\n    ' + '\n    '.join(
                      '%r value %s' % (path, C.brief(e.value, 150)) for path, e in list(walk(r[1]))[:30]))
    k = Op(o.key, o.root, o.doc, False, 'refused by the constructor')
    return k, r, core.outcome_of(r)


def rekey(doc, path, new):
    """A copy of doc in which the key that path leads to is another one."""
    if len(path) == 1:
        return {(new if k == path[0] else k): v for k, v in doc.items()}
    h = path[0]
    if isinstance(doc, dict):
        return {k: (rekey(v, path[1:], new) if k == h else v) for k, v in doc.items()}
    r = [rekey(v, path[1:], new) if i == h else v for i, v in enumerate(doc)]
    return tuple(r) if isinstance(doc, tuple) else r
