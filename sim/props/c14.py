"""C14: the same calls in processes with different hash seeds and memory layouts."""
import os
import random

from .. import core
from .. import canon as C
from ..schema import Obj, damage, gen_json
from ..work import Unsupported, Work, deep, draw_cfg

BLOCK = 150
RUNS = {'quick': 3600, 'thorough': 60000}
PROCESSES = 3
RULE = ('one run: drawn schema (with unions whose members can hardly be told apart) and settings, 6-20 loads and dumps, good and damaged in one or '
        'more places, on brand new and on long-lived objects, executed by 3 processes with different hash seeds and allocation histories, which must agree; '
        'non-trivial: some calls succeeded and some failed')
STUBS = 'hash seeds and memory layouts of the processes; everything else is real'
ASSUMPTIONS = ['the texts of the errors and the order in which sets are iterated are not compared',
               'iterating over a set is up to the interpreter: the elements of dumped sets are compared regardless of their order']


def where(e, depth=0):
    """Class and place of an error; not its text."""
    if not hasattr(e, 'trace') or depth > 20:
        return type(e).__name__
    trace = [(C.canon(i.value), C.typename(i.type_), C.canon_annotation(i.annotation)) for i in e.trace]
    return (type(e).__name__, trace, C.canon(e.value), [where(x, depth + 1) for x in e.exceptions])


def unordered(v):
    """Lists as bags: for what was dumped from sets."""
    if type(v) is list:
        return ('bag', sorted([unordered(i) for i in v], key=repr))
    if type(v) is dict:
        return ('dict', sorted([(C.canon(k), unordered(x)) for k, x in v.items()], key=repr))
    return C.canon(v)


def has_set(c):
    if type(c) is tuple:
        return (len(c) == 2 and c[0] in ('set', 'frozenset')) or any(has_set(i) for i in c)
    return False


def orders(v, depth=0):
    """In which order the keys of dictionaries come, everywhere but inside of sets."""
    t = type(v)
    if depth > 40:
        return ()
    if t is dict:
        return ('keys', tuple((C.canon(k), orders(x, depth + 1)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return tuple(orders(i, depth + 1) for i in v)
    names = list(getattr(t, '__dataclass_fields__', None) or [a.name for a in getattr(t, '__attrs_attrs__', ())])
    return tuple(orders(getattr(v, n, None), depth + 1) for n in names)


def result(r, bag=False):
    if r[0] == 'ok':
        return ('ok', unordered(r[1]) if bag else (C.canon(r[1]), orders(r[1])))
    return ('err', where(r[1]))


def poke(v, ch):
    """Puts values that cannot be dumped in some fields of an object; None if it has no fields."""
    t = type(v)
    if t is dict:
        r = dict(v)
        for k in ch.subset(list(r), 70):
            r[k] = Unsupported()
        return r
    names = list(getattr(t, '_fields', None) or getattr(t, '__dataclass_fields__', None) or [a.name for a in getattr(t, '__attrs_attrs__', ())])
    if not names:
        return None
    bad = ch.subset(names, 70)
    if hasattr(t, '_fields'):
        return v._replace(**{n: Unsupported() for n in bad})
    for n in bad:
        object.__setattr__(v, n, Unsupported())
    return v


def run(env):
    ch = env.ch
    # Other processes have allocated other things before
    rnd = random.Random('%s %d' % (os.environ.get('PYTHONHASHSEED'), env.index))
    junk = [type('Junk%d' % i, (), {}) for i in range(rnd.randrange(30))]
    rnd.shuffle(junk)
    keep = junk[:len(junk) // 2]
    del junk
    cfg = draw_cfg(ch)
    w = Work(env, cfg, wild=70)
    node = w.node()
    node.activate()
    loader = w.loader(node)
    dumper = w.dumper(node)
    cross = []
    oks = errs = 0
    classes = [r for r in range(len(w.roots)) if isinstance(w.roots[r].deref(), Obj)]
    for k in range(ch.rng_int(6, 20)):
        own = ch.flag(40)
        if own:
            node = w.node()
            node.activate()
            l, d = w.loader(node), w.dumper(node)
        else:
            l, d = loader, dumper
        sort = ch.draw(4)
        if sort < 3:
            o = w.op(k, bad=45)
            if not o.good and ch.flag(50):
                for _ in range(1 + ch.draw(3)):
                    o.doc = damage(o.doc, ch)[1]
                    env.fault('damaged document')
            r = w.do_load(node, l, o)
            text = repr(o)
            got = result(r)
        else:
            o = w.dump_op(k, bad=0)
            v = w.value(node, o)
            text = repr(o)
            if ch.flag(50):
                p = poke(v, ch)
                if p is not None:
                    v = p
                    text += ' with fields that cannot be dumped'
                    env.fault('value that cannot be dumped')
            bag = has_set(C.canon(v))
            r = core.call(d.dump, v)
            if r[0] == 'exc' and bag:
                # which of the elements of a set comes first is up to the interpreter
                got = ('err', type(r[1]).__name__)
            else:
                got = result(r, bag)
        env.ops += 1
        if r[0] == 'ok':
            oks += 1
        else:
            errs += 1
        cross.append((text if not has_set_text(o) else '', got))
    for t, g in cross:
        env.ev(t, '->', C.brief(g, 300))
    env.cross = cross
    env.nontrivial = oks > 0 and errs > 0
    del keep


def has_set_text(o):
    """Documents that contain sets are printed in the order of the process."""
    def f(v):
        t = type(v)
        if t in (set, frozenset):
            return True
        if t in (list, tuple):
            return any(f(i) for i in v)
        if t is dict:
            return any(f(i) for i in v.values())
        return False
    return f(o.doc)
