"""C11: nothing is modified, nothing mutable is shared."""
import enum
import types

from .. import core
from .. import canon as C
from ..schema import AnyT, Dct, NewT, Obj, Seq, Tup, Uni
from ..work import Work, deep, draw_cfg
from .c03 import spoil
from .c05 import KINDS, measure, pick_instant, Side

BLOCK = 120
RUNS = {'quick': 7500, 'thorough': 150000}
RULE = ('one run: drawn schema and settings, 4-14 loads (or dumps), good, damaged, or interrupted at a drawn instruction, of a long-lived object; the '
        'values given (structure, order of keys, identities), the classes and the settings are as before after each; no mutable container of a result is '
        'reachable from an input or from another result; editing buffers and results between calls changes nothing; '
        'non-trivial: at least two results with mutable containers, and one failure')
STUBS = 'delivery of asynchronous exceptions; the caller who reuses buffers and edits results is simulated'
ASSUMPTIONS = ['what goes through typing.Any is not copied', 'the names that a loader adds to frefs are not a change of its settings']

MUTABLE = (list, dict, set, bytearray)


def mutables(v, out, depth=0):
    """id -> object of the mutable containers reachable from a value, in the order in which they are met."""
    t = type(v)
    if depth > 60:
        return out
    if isinstance(v, MUTABLE):
        if id(v) in out:
            return out
        out[id(v)] = v
    if isinstance(v, dict):
        for k, x in v.items():
            mutables(k, out, depth + 1)
            mutables(x, out, depth + 1)
    elif isinstance(v, (list, tuple, set, frozenset)):
        for i in v:
            mutables(i, out, depth + 1)
    elif hasattr(t, '__dataclass_fields__') or hasattr(t, '__attrs_attrs__'):
        frozen = t.__dataclass_params__.frozen if hasattr(t, '__dataclass_fields__') else 'frozen' in str(t.__setattr__)
        if not frozen:
            if id(v) in out:
                return out
            out[id(v)] = v
        names = list(t.__dataclass_fields__) if hasattr(t, '__dataclass_fields__') else [a.name for a in t.__attrs_attrs__]
        for n in names:
            try:
                mutables(getattr(v, n), out, depth + 1)
            except AttributeError:
                pass
    return out


def shape(v, depth=0):
    """Everything about a value that could be changed: order, identities, types."""
    t = type(v)
    if depth > 60:
        return '...'
    if isinstance(v, dict):
        return (t.__name__, id(v), tuple([(shape(k, depth + 1), shape(x, depth + 1)) for k, x in v.items()]))
    if isinstance(v, (list, tuple)):
        return (t.__name__, id(v), tuple([shape(i, depth + 1) for i in v]))
    if isinstance(v, (set, frozenset)):
        return (t.__name__, id(v), tuple([id(i) for i in v]))
    if hasattr(t, '__dataclass_fields__') or hasattr(t, '__attrs_attrs__'):
        names = list(t.__dataclass_fields__) if hasattr(t, '__dataclass_fields__') else [a.name for a in t.__attrs_attrs__]
        return (t.__name__, id(v), tuple([(n, shape(getattr(v, n, None), depth + 1)) for n in names]), tuple(getattr(v, '__dict__', ())))
    return (t.__name__, id(v))


def settings(obj):
    """The settings of a loader or dumper, by content and identity."""
    r = []
    for k, v in sorted(vars(obj).items()):
        if k.startswith('_') or k == 'frefs':
            continue
        if isinstance(v, list):
            r.append((k, 'list', tuple([(id(i), tuple([id(x) for x in i])) for i in v])))
        elif isinstance(v, (set, frozenset)):
            r.append((k, 'set', tuple(sorted([id(i) for i in v]))))
        elif isinstance(v, dict):
            r.append((k, 'dict', tuple([(id(a), id(b)) for a, b in v.items()])))
        else:
            r.append((k, id(v)))
    return r


_OWN = ('__annotations__', '__dataclass_fields__', '__attrs_attrs__', '_fields', '_field_defaults', '__required_keys__', '__optional_keys__', '__total__',
        '__members__', '_member_map_', '_value2member_map_', '__supertype__', '__args__', '__bases__', '__match_args__')


def classes(ns):
    """The state of the classes and of the types of the schema."""
    r = []
    for name, c in sorted(ns.items(), key=lambda i: i[0]):
        if name.startswith('__') or isinstance(c, types.ModuleType):
            continue
        if isinstance(c, type) and c.__module__ == 'schema':
            items = []
            for k, v in vars(c).items():
                if k in ('__doc__', '__weakref__', '__abstractmethods__') or k.startswith('_abc_'):
                    continue
                if k == '__annotations__' and not v:
                    continue        # Python makes it, when it is first looked at
                items.append((k, freeze(v)))
            r.append((name, sorted(items)))
        elif not isinstance(c, (type, types.FunctionType, types.BuiltinFunctionType)) and name[:1] in 'RNEC' and name[1:].isdigit():
            r.append((name, freeze(c), [(k, freeze(getattr(c, k))) for k in ('__args__', '__supertype__') if hasattr(c, k)]))
    return r


def freeze(v, depth=0):
    if isinstance(v, (dict, types.MappingProxyType)) and depth < 3:
        return ('dict', tuple([(str(k), freeze(x, depth + 1)) for k, x in v.items()]))
    if isinstance(v, (list, tuple)) and depth < 3:
        return (type(v).__name__, tuple([freeze(x, depth + 1) for x in v]))
    if isinstance(v, (set, frozenset)):
        return (type(v).__name__, tuple(sorted([str(x) for x in v])))
    if isinstance(v, enum.Enum):
        return ('enum', v.name, freeze(v.value, depth + 1))
    return id(v)


def run(env):
    ch = env.ch
    w = Work(env, draw_cfg(ch), allow_any=False, odd=ch.flag(50), hooks=ch.flag(15))
    loads = not ch.flag(35)
    s = Side(env, w, loads)
    w.cfg.namespaces = False
    for o in s.pool:
        s.want(o)
    node = w.node()
    node.activate()
    ns = node.schema
    user_frefs = None
    if loads and ch.flag(20):
        user_frefs = {'SomeName': int}
        w.cfg.extra['frefs'] = user_frefs
    obj = s.obj(node)
    w.cfg.extra.pop('frefs', None)
    cls0 = classes(ns)
    set0 = settings(obj)
    lib0 = libstate(node)
    kept = []               # (mutables of a result, result, what)
    buffers = {}
    failures = withm = 0
    for k in range(ch.rng_int(4, 14)):
        o = ch.pick(s.pool)
        if ch.flag(40) and o.key in buffers:
            x = buffers[o.key]          # the same object, given again
        else:
            x = s.given(node, o)
            buffers[o.key] = x
        before = shape(x)
        text = C.canon(x)
        interrupted = ch.flag(20)
        if interrupted:
            total, sites = measure(env, s, o)
            at = pick_instant(ch, total, sites)
            exc = ch.pick(KINDS)('injected')
            node.activate()
            world = env.world('few')
            world.main.begin(fault_at=at, fault_exc=exc)
            try:
                r = s.do_with(node, obj, o, x)
            finally:
                world.main.end()
            env.done_world(world)
            if world.main.fault_fired:
                env.fault(type(exc).__name__)
        else:
            node.activate()
            r = s.do_with(node, obj, o, x)
            if r[0] == 'ok' or not isinstance(r[1], KINDS):
                env.same(core.outcome_of(r), s.want(o), 'result-differs', lambda: '%d: %r' % (k, o))
        env.ops += 1
        failures += r[0] == 'exc'
        env.ev('%d:' % k, repr(o), '->', core.show(core.outcome_of(r), 200), 'interrupted' if interrupted else '')
        env.check(shape(x) == before and C.canon(x) == text, 'input-modified', lambda: '%d: %r is now %s' % (k, o, C.brief(x, 1000)))
        c = classes(ns)
        env.check(c == cls0, 'class-modified', lambda: '%d: %r changed %r' % (k, o, [a[0] for a, b in zip(c, cls0) if a != b] or 'the list of classes'))
        env.check(settings(obj) == set0, 'settings-modified', lambda: '%d: %r changed %r' % (k, o, [a[0] for a, b in zip(settings(obj), set0) if a != b]))
        env.check(libstate(node) == lib0, 'defaults-modified', lambda: '%d: %r changed the class of the loader or dumper' % (k, o))
        if user_frefs is not None:
            env.check(user_frefs.get('SomeName') is int, 'settings-modified', lambda: 'the frefs of the user were changed: %r' % user_frefs)
        if r[0] == 'ok':
            ms = mutables(r[1], {})
            withm += bool(ms)
            inp = mutables(x, {})
            for b in buffers.values():
                mutables(b, inp)
            both = [v for i, v in ms.items() if i in inp]
            env.check(not both, 'shared-with-input', lambda: '%d: %r: the result shares %s with the input' % (k, o, C.brief(both[0])))
            for ms2, r2, k2 in kept:
                both = [v for i, v in ms.items() if i in ms2]
                env.check(not both, 'shared-with-result', lambda: '%d: %r: the result shares %s with the one of call %d' % (k, o, C.brief(both[0]), k2))
            own = repeated(r[1])
            env.check(own is None, 'shared-inside', lambda: '%d: %r: %s is found twice in the result' % (k, o, C.brief(own)))
            if ch.flag(40):
                try:
                    spoil(r[1])
                    env.fault('result edited by the caller')
                except TypeError:
                    pass
                env.check(shape(x) == before, 'shared-with-input', lambda: '%d: %r: editing the result changed the input' % (k, o))
            else:
                kept.append((ms, r[1], k))
                res = C.canon(r[1])
                if ch.flag(30):
                    # the caller reuses the buffer
                    try:
                        spoil(x)
                        env.fault('buffer reused by the caller')
                    except TypeError:
                        pass
                    buffers.pop(o.key, None)
                    env.check(C.canon(r[1]) == res, 'shared-with-input', lambda: '%d: %r: editing the input changed the result' % (k, o))
                    kept.append((mutables(x, {}), x, k))
    env.nontrivial = withm >= 2 and failures > 0
    for o in s.pool:
        env.ops += 1
        node.activate()
        env.same(core.outcome_of(s.do(node, obj, o)), s.want(o), 'result-differs', lambda: 'in the end: %r' % o)


def repeated(v):
    """A mutable container found in two places of a value, if any."""
    seen = set()
    todo = [v]
    n = 0
    while todo and n < 5000:
        n += 1
        x = todo.pop()
        if isinstance(x, MUTABLE):
            if id(x) in seen:
                return x
            seen.add(id(x))
        if isinstance(x, dict):
            todo.extend(x.values())
        elif isinstance(x, (list, tuple)):
            todo.extend(x)
        elif hasattr(type(x), '__dataclass_fields__'):
            todo.extend(getattr(x, f, None) for f in type(x).__dataclass_fields__)
        elif hasattr(type(x), '__attrs_attrs__'):
            todo.extend(getattr(x, a.name, None) for a in type(x).__attrs_attrs__)
    return None


def libstate(node):
    """What a loader or dumper made later starts with."""
    r = []
    for o in (node.Loader(), node.Dumper()):
        for k, v in sorted(vars(o).items()):
            if k.startswith('_') or k == 'handlers':
                continue
            r.append((k, len(v) if hasattr(v, '__len__') else v, tuple(sorted([str(i) for i in v])) if isinstance(v, (set, dict)) else None))
        r.append(len(o.handlers))
    return r
