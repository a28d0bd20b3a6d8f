"""C13: state saved as JSON, crashes, restarts."""
import json

from .. import core
from .. import canon as C
from ..schema import gen_json
from ..work import Op, Unsupported, Work, become, deep, draw_cfg
from .c05 import KINDS, pick_instant

BLOCK = 100
RUNS = {'quick': 7000, 'thorough': 150000}
RULE = ('one run: drawn schema (also with factories, init=False, defaults made from the instance, custom handlers) and settings; an application '
        'saves versions of its state as JSON text with long-lived dumpers, some saves are cut by a crash at a drawn instruction, by an '
        'interruption it survives, or by values that cannot be dumped; after restarts (new process, new objects) and in between, what was saved '
        'last is loaded, also after failed and interrupted loads, and must be equal to the value that was saved; '
        'non-trivial: at least one crash, interruption or failure and one restart')
STUBS = 'the disk (holds the last text written completely), crashes, asynchronous exceptions; threading/_thread/time/random as seen by the library'
ASSUMPTIONS = ['the application replaces the saved text atomically, once dump() has returned',
               'documented limits of the format: durations are stored as float seconds, flags of patterns are not stored, fields with repr=False are not stored']

JSONTYPES = (str, int, float, bool, type(None))


class Crash(BaseException):
    """The process is gone."""


def not_json(v, path=''):
    """The first thing that is not made of JSON types, or None"""
    t = type(v)
    if t in JSONTYPES:
        return None
    if t is list:
        for i, x in enumerate(v):
            r = not_json(x, '%s[%d]' % (path, i))
            if r:
                return r
        return None
    if t is dict:
        for k, x in v.items():
            if type(k) not in JSONTYPES:
                return '%s: key %r of type %s' % (path, k, type(k).__name__)
            r = not_json(x, '%s[%r]' % (path, k))
            if r:
                return r
        return None
    return '%s: %r of type %s' % (path or 'the root', v, t.__name__)


class App:
    """One life of the application."""
    def __init__(self, env, w):
        self.env = env
        self.w = w
        self.node = w.node()
        self.node.activate()
        self.dumpers = {}
        self.loaders = {}
        self.state = None       # what is in memory

    def dumper(self, hide):
        if hide not in self.dumpers:
            kw = dict(self.w.cfg.dumper_kw(), hidedefault=hide)
            d = self.dumpers[hide] = self.node.Dumper(**kw)
            if self.w.s.hooks:
                d.handlers.extend(self.node.schema['DUMP_HANDLERS'])
        return self.dumpers[hide]

    def loader(self, strict):
        if strict not in self.loaders:
            kw = dict(self.w.cfg.loader_kw(), failonextra=strict)
            l = self.loaders[strict] = self.node.Loader(**kw)
            if self.w.s.hooks:
                l.handlers.extend(self.node.schema['LOAD_HANDLERS'])
        return self.loaders[strict]


def under(env, fault, fn):
    """Executes fn, with fault() raised at a drawn instruction if it is not None. Returns (outcome, fired)"""
    if fault is None:
        return core.call(fn), False
    at, exc = fault
    world = env.world('few')
    world.main.begin(fault_at=at, fault_exc=exc)
    try:
        r = core.call(fn)
    finally:
        world.main.end()
    env.done_world(world)
    return r, world.main.fault_fired


def measured(env, fn):
    world = env.world('sites')
    world.main.begin()
    try:
        core.call(fn)
    finally:
        world.main.end()
    env.done_world(world)
    return world.main.count, list(world.sites)


def run(env):
    ch = env.ch
    cfg = draw_cfg(ch, json=True, extra=False)
    if ch.flag(10):
        cfg.isodates = False
    if ch.flag(6):
        cfg.extra['pep563'] = True
    w = Work(env, cfg, odd=True, hooks=ch.flag(15))
    app = App(env, w)
    saved = None            # (text, op, hide)
    troubles = restarts = 0

    def check_load(what):
        nonlocal troubles
        text, op, hide = saved
        t = app.node.schema['R%d' % op.root]
        strict = ch.flag(60)
        fault = None
        fn = lambda l: (lambda: l.load(json.loads(text), t))
        if ch.flag(15):
            # A first attempt comes to nothing
            total, sites = measured(env, fn(App(env, w).loader(strict)))
            app.node.activate()
            e = ch.pick(KINDS)('injected')
            r, fired = under(env, (pick_instant(ch, total, sites), e), fn(app.loader(strict)))
            env.ev('load interrupted' if fired else 'load')
            troubles += fired
            env.fault('load interrupted', fired)
        elif ch.flag(15):
            core.call(app.loader(strict).load, gen_json(ch, 2, 'json'), t)
            env.fault('damaged document loaded before')
        r = core.call(fn(app.loader(strict)))
        env.ops += 1
        got = core.outcome_of(r)
        want = ('ok', C.canon(w.roots[op.root].real(op.av, app.node.schema)))
        env.ev(what, repr(op), 'failonextra' if strict else '', '->', core.show(got, 150))
        env.same(got, want, 'lost', lambda: '%s: %r, stored as %s (hidedefault=%s, failonextra=%s)' % (what, op, text, hide, strict))

    for step in range(ch.rng_int(4, 10)):
        act = ch.weighted([(6, 'save'), (3, 'crash'), (2, 'interrupt'), (2, 'unsupported'), (2, 'restart'), (2, 'read')])
        if act in ('save', 'crash', 'interrupt'):
            op = w.good_op(step)
            hide = not ch.flag(40)
            annotated = ch.flag(35)
            v = w.value(app.node, op)
            if app.state is not None and ch.flag(50):
                # The state is edited in place
                v = become(app.state, v)
            app.state = v
            before = C.canon(v)

            def dump(app=app, v=v):
                d = app.dumper(hide)
                if annotated:
                    return d.dump(v, app.node.schema['R%d' % op.root])
                return d.dump(v)
            fault = None
            if act != 'save':
                # how long it takes, in a process of its own
                other = App(env, w)
                v2 = w.value(other.node, op)
                total, sites = measured(env, lambda: dump(other, v2))
                app.node.activate()
                exc = Crash() if act == 'crash' else ch.pick(KINDS)('injected')
                fault = (pick_instant(ch, total, sites), exc)
            r, fired = under(env, fault, dump)
            env.ops += 1
            if fired:
                troubles += 1
                env.fault(act)
                env.check(r[0] == 'exc' and r[1] is fault[1], 'swallowed', lambda: '%r in a dump, at instruction %d, gave %s' % (fault[1], fault[0], core.show(core.outcome_of(r))))
                env.ev('%s while saving %r' % (act, op))
                if act == 'crash':
                    app = App(env, w)
                    restarts += 1
                    if saved:
                        check_load('after the crash')
                continue
            if r[0] != 'ok':
                if isinstance(r[1], NotImplementedError) and not cfg.isodates:
                    # time zones can't be dumped as lists
                    env.ev('not supported without isodates')
                    continue
                env.fail('not-dumped', '%r of R%d: %s' % (op, op.root, core.show(core.outcome_of(r), 1000)))
            env.check(C.canon(v) == before, 'input-modified', lambda: 'dumping modified %r' % op)
            bad = not_json(r[1])
            env.check(not bad, 'not-json', lambda: '%r is dumped as %r: %s' % (op, r[1], bad))
            try:
                text = json.dumps(r[1])
            except (TypeError, ValueError) as e:
                env.fail('not-json', '%r is dumped as %r: %s' % (op, r[1], e))
            saved = (text, op, hide)
            env.kinds['defaults hidden' if hide else 'defaults written'] += 1
            env.ev('saved %r: %s' % (op, text[:300]))
        elif act == 'unsupported':
            d = app.dumper(not ch.flag(40))
            op = w.good_op(step)
            v = w.value(app.node, op)
            x = ch.pick([[v, Unsupported()], {'a': v, 'b': Unsupported()}, Unsupported(), (v, [Unsupported()])])
            r = core.call(d.dump, x)
            env.ops += 1
            troubles += 1
            env.fault('value that cannot be dumped')
            env.ev('dump of something unsupported:', r[0])
        elif act == 'restart':
            app = App(env, w)
            restarts += 1
            env.fault('restart')
            if saved:
                check_load('after the restart')
        elif saved:
            check_load('read')
    app = App(env, w)
    if saved:
        restarts += 1
        check_load('in the end')
        check_load('in the end')
    env.nontrivial = bool(troubles and restarts and saved)
