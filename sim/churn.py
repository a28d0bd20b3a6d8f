"""Classes by the hundred: they come into being, are used and are gone, or stay; most have the same name."""
import dataclasses
import enum
import gc
import typing

import attr

from . import core

_TYPES = (('int', int, lambda i: i), ('str', str, lambda i: 's%d' % i), ('list', typing.List[int], lambda i: [i, i + 1]), ('float', float, lambda i: i + 0.5),
          ('dict', typing.Dict[str, int], lambda i: {'k': i}), ('opt', typing.Optional[str], lambda i: None if i % 2 else 'o%d' % i))


class Made:
    """type, document, how to see that a value is the one for it, wrong document, what it is dumped as"""
    __slots__ = ('kind', 'type', 'doc', 'value', 'fits', 'bad')

    def __repr__(self):
        return '%s %r' % (self.kind, self.doc)


def _obj(ch, i, kind, tag=None):
    m = Made()
    m.kind = kind
    name = ch.pick(['K', 'K', 'K', 'K%d' % i])
    fields = [(n,) + ch.pick(_TYPES) for n in ch.shuffled(['a', 'b', 'c'])[:1 + ch.draw(3)]]
    vals = {n: f(i + k) for k, (n, _, t, f) in enumerate(fields)}
    types = {n: t for n, _, t, f in fields}
    names = {n: n for n in types}
    if tag is not None:
        types['tag'] = typing.Literal[tag]
        vals['tag'] = tag
        names['tag'] = 'tag'
    if kind in ('dataclass', 'attrs') and ch.flag(40):
        n = fields[0][0]
        names[n] = ch.pick(['z', 'n%d' % i])
    if kind == 'dataclass':
        m.type = dataclasses.make_dataclass(name, [(n, t, dataclasses.field(metadata={'name': names[n]} if names[n] != n else {})) for n, t in types.items()])
    elif kind == 'attrs':
        m.type = attr.make_class(name, {n: attr.ib(type=t, metadata={'name': names[n]} if names[n] != n else {}) for n, t in types.items()})
    elif kind == 'namedtuple':
        m.type = typing.NamedTuple(name, list(types.items()))
    else:
        m.type = typing.TypedDict(name, types)
    m.doc = {names[n]: v for n, v in vals.items()}
    m.value = m.doc if kind == 'typeddict' else m.type(**vals)
    c = m.type
    if kind == 'typeddict':
        m.fits = lambda v: v == vals
    else:
        m.fits = lambda v: type(v) is c and all(getattr(v, n) == x and type(getattr(v, n)) is type(x) for n, x in vals.items())
    m.bad = {k: v for k, v in m.doc.items() if k != names[fields[0][0]]}
    return m


def make(ch, i, light=False):
    kind = 'enum' if light else ch.pick(['dataclass', 'namedtuple', 'attrs', 'typeddict', 'enum', 'union', 'list'])
    if kind == 'enum':
        m = Made()
        m.kind = kind
        t = m.type = enum.Enum('K', {'x%d' % (i % 3): i, 'y': 'v%d' % i})
        v = m.value = list(t)[ch.draw(2)]
        m.doc = v.value
        m.fits = lambda w: w is v
        m.bad = 'v%d' % (i + 1)
        return m
    if kind == 'union':
        a, b = (_obj(ch, i, ch.pick(['dataclass', 'namedtuple', 'attrs']), tag) for tag in ch.pick([('p', 'q'), ('q', 'p'), (1, 2), (2, 1)]))
        m = b if ch.flag(50) else a
        m.type = typing.Union[a.type, b.type]
        m.bad = dict(m.doc, tag='none')
        m.kind = kind
        return m
    if kind == 'list':
        e = _obj(ch, i, ch.pick(['dataclass', 'namedtuple', 'attrs']))
        m = Made()
        m.kind, m.type, m.doc, m.value = kind, typing.List[e.type], [e.doc, e.doc], [e.value]
        m.fits = lambda v: type(v) is list and len(v) == 2 and all(map(e.fits, v))
        m.bad = [e.doc, e.bad]
        return m
    return _obj(ch, i, kind)


def _settings(ch, load):
    return {k: v for k, v in ({'basiccast': False, 'failonextra': True, 'frefs': None} if load else {'hidedefault': False}).items() if ch.flag(30)}


def expected_dump(m):
    return [m.doc[0]] if m.kind == 'list' else m.doc


def one_load(env, l, m, bad, when):
    env.ops += 1
    r = core.call(l.load, m.bad if bad else m.doc, m.type)
    if bad:
        env.check(r[0] == 'exc', 'history-dependent', lambda: '%s: %r is no %r, and is loaded as %s' % (when, m.bad, m, core.show(core.outcome_of(r))))
        env.fault('wrong document')
    else:
        env.check(r[0] == 'ok' and m.fits(r[1]), 'history-dependent', lambda: '%s: %r of %r loads as %s' % (when, m, m.type, core.show(core.outcome_of(r))))


def one_dump(env, d, m, when):
    env.ops += 1
    r = core.call(d.dump, m.value)
    want = expected_dump(m)
    env.check(r[0] == 'ok' and r[1] == want and type(r[1]) is type(want), 'history-dependent', lambda: '%s: %r is dumped as %s instead of %r' % (when, m, core.show(core.outcome_of(r)), want))


def history(env, load):
    """Classes are made, used and given up; the memory of the old ones is used for the new ones."""
    ch = env.ch
    node = env.node()
    node.activate()
    kw = _settings(ch, load)
    obj = node.Loader(**kw) if load else node.Dumper(**kw)
    env.ev('classes come and go', repr(kw))
    alive = []
    n = ch.weighted([(4, 20), (4, 40), (4, 80), (2, 160), (1, 700)])
    often = ch.pick([1, 2, 5, 20])
    room = ch.pick([0, 1, 4, 150])
    for i in range(n):
        m = make(ch, i)
        env.ev(repr(m))
        for k in range(1 + ch.draw(2)):
            if load:
                one_load(env, obj, m, ch.flag(25), 'class %d' % i)
            else:
                one_dump(env, obj, m, 'class %d' % i)
        if alive and ch.flag(50):
            o = ch.pick(alive)
            if load:
                one_load(env, obj, o, ch.flag(25), 'again, after %d classes' % i)
            else:
                one_dump(env, obj, o, 'again, after %d classes' % i)
        alive.append(m)
        while len(alive) > room:
            alive.pop(ch.draw(len(alive)))
            env.fault('class given up')
        m = o = None
        if i % often == 0:
            gc.collect()
    env.nontrivial = True

