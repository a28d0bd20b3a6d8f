"""C08: callbacks of the user that fail, and handlers that reject."""
from .. import core, hooks
from .. import canon as C
from ..locate import matches, poison_for, spots, walk
from ..schema import CustT, put
from ..work import Work, deep, draw_cfg

BLOCK = 200
RUNS = {'quick': 18000, 'thorough': 250000}
RULE = ('one run: drawn schema with classes having custom handlers, post-init hooks, converters and validators; the calls to them of a load '
        '(or dump) are counted, then one of them, drawn, fails with a drawn exception: the call must raise; handlers reject values with each of '
        'the exceptions of typedload, in unions (the next member is used) and outside (the error leads to the value); then all is done again with working callbacks; non-trivial: a callback failed inside of a call')
STUBS = 'the callbacks of the user (simulated: they count, fail and reject as drawn)'
ASSUMPTIONS = ['the callbacks are handlers, constructors and post-init hooks of object types and of types with handlers, converters and validators; '
               'not the constructors of strconstructed types and _missing_() of enums, whose failures mean that the value does not fit']


def run(env):
    ch = env.ch
    w = Work(env, draw_cfg(ch, extra=False), hooks=True, allow_any=False)
    node = w.node()
    node.activate()
    ns = node.schema
    loads = not ch.flag(30)
    obj = w.loader(node) if loads else w.dumper(node)
    n = ch.rng_int(1, 4)
    ops = [w.good_op(i) for i in range(n)]
    h = hooks.Hooks()

    def do(o, *value, wide=False):
        # making the value calls the hooks as well
        ns['_hook'] = None
        if wide:
            ns['_hook'] = h
            return core.call(obj.load, deep(o.doc), w.or_anything(node, o.root))
        if loads:
            x = value[0] if value else deep(o.doc)
            ns['_hook'] = h
            return core.call(obj.load, x, ns['R%d' % o.root])
        x = w.value(node, o)
        ns['_hook'] = h
        return core.call(obj.dump, x)

    def expected(o):
        ns['_hook'] = None
        if loads:
            return ('ok', C.canon(w.value(node, o)))
        return w.pristine_dump(o)

    def good(o, what):
        h.calls = 0
        h.fail_at = None
        r = do(o)
        env.ops += 1
        env.ev(what, repr(o), '->', core.show(core.outcome_of(r), 200), '(%d callbacks)' % h.calls)
        env.same(core.outcome_of(r), expected(o), 'wrong-result', lambda: '%s: %r' % (what, o))
        return h.calls
    counts = [good(o, 'at first') for o in ops]
    fired = 0
    for k in range(ch.rng_int(2, 6)):
        i = ch.draw(n)
        o = ops[i]
        if loads and ch.flag(30):
            fired += reject(env, w, node, o, do)
            continue
        if not counts[i]:
            continue
        if ch.flag(30):
            good(ch.pick(ops), 'between')
        h.calls = 0
        h.fired = None
        h.fail_at = ch.draw(counts[i])
        h.make = ch.pick(hooks.FAILURES)
        ref = ch.flag(15)
        if ref:
            # the first thing that a new object does
            obj = w.loader(node) if loads else w.dumper(node)
        wide = loads and ch.flag(30)
        r = do(o, wide=wide)
        env.ops += 1
        if h.fired is None and wide:
            continue
        if h.fired is None:
            # it has remembered something, such as the default of a field
            env.same(core.outcome_of(r), expected(o), 'wrong-result', lambda: '%r, no failure' % o)
            continue
        fired += 1
        where = h.fired[0]
        env.fault('failure of a ' + ('constructor' if 'init' in where else 'load handler' if 'load' in where else 'dump handler' if 'dump' in where else where))
        env.ev('%r in %s (call %d):' % (type(h.fired[1]).__name__, h.fired[0], h.fail_at), repr(o), 'or anything' if wide else '', '->', r[0])
        env.check(r[0] == 'exc', 'failure-masked', lambda: '%r: %s raised %s at call %d and the result is %s' % (
            o, h.fired[0], type(h.fired[1]).__name__, h.fail_at, core.show(core.outcome_of(r))))
        h.fail_at = None
    for i, o in enumerate(ops):
        good(o, 'in the end')
    env.nontrivial = fired > 0


def reject(env, w, node, o, do):
    """A handler rejects a value that is not below a union."""
    ch = env.ch
    t = w.roots[o.root]
    ss = [s for s in spots(t, o.av, o.doc, w.cfg) if isinstance(s.t, CustT) and not s.key and ('u',) not in s.steps]
    if not ss:
        return 0
    s = ch.pick(ss)
    p = poison_for(ch, s, w.cfg)[1]
    doc = put(o.doc, s.path, deep(p))
    r = do(o, doc)
    env.ops += 1
    env.ev('rejected by its handler: %r at %r' % (p, s.path), repr(o), '->', core.show(core.outcome_of(r), 300))
    env.fault('handler rejects')
    e = r[1]
    env.check(r[0] == 'exc' and isinstance(e, getattr(node.exc, s.t.rejection)), 'rejection-lost',
              lambda: '%r with %r at %r, rejected with %s: %s' % (o, p, s.path, s.t.rejection, core.show(core.outcome_of(r))))
    ok = any(matches(s.steps, path, doc, p) and x is e for path, x in walk(e))
    env.check(ok and e.value == p, 'wrong-path', lambda: '%r with %r at %r: the error leads to %r, value %r' % (o, p, s.steps, [i[0] for i in walk(e)], e.value))
    return 1
