"""Where an error must point to."""
from .schema import POISONS, Basic, CustPair, Dct, NewT, Obj, Seq, Tup, Uni


class Spot:
    """A place in a document. steps: ('f', name, key) | ('i', n) | ('v', key) | ('k',) | ('u',) from the root."""
    __slots__ = ('steps', 't', 'path', 'key')

    def __init__(self, steps, t, path, key=False):
        self.steps = steps
        self.t = t
        self.path = path        # to use in put()
        self.key = key


def others_reject(uni, member, doc, cfg):
    """Do the other members of a union refuse a damaged dictionary or list meant for this one?"""
    for i, t in enumerate(uni.ts):
        if i == member:
            continue
        t = t.deref()
        if isinstance(t, Basic):
            if t.name in ('str', 'bool') and cfg.basiccast:
                return False
        elif isinstance(t, Obj):
            # objects of a tagged union, told apart by their tags
            if not any(type(f.t).__name__ == 'LitT' and f.required() for f in t.cls.fields):
                return False
        elif t.cat in ('listy', 'mappy', None):
            return False
    return True


def spots(t, av, doc, cfg, steps=(), path=()):
    """Each place at which an element can be damaged, so that the error must point to it."""
    while isinstance(t, NewT):
        t = t.t
    yield Spot(steps, t, path)
    if isinstance(t, Uni):
        m = t.ts[av[0]].deref()
        if others_reject(t, av[0], doc, cfg):
            for s in spots(m, av[1], doc, cfg, steps + (('u',),), path):
                if len(s.steps) > len(steps) + 1:
                    yield s
        return
    if isinstance(t, Dct) and type(doc) is dict:
        for k, _ in av:
            dk = t.k.doc(k, cfg)
            if dk in doc:
                yield Spot(steps + (('k',),), t.k, path + (dk,), True)
    if not isinstance(t, (Dct, Obj, Seq, Tup)) or not isinstance(doc, (dict, list, tuple)):
        return
    for step, ct, a, sub in t.children(av, doc, cfg):
        yield from spots(ct, a, sub, cfg, steps + (step,), path + (step[-1],))


def poison_for(ch, spot, cfg):
    """Something that is refused there, or None."""
    ps = [p for p in POISONS if spot.t.rejects(p, cfg) and not (spot.key and isinstance(p, dict))]
    return ('yes', ch.pick(ps)) if ps else None


def walk(e, depth=0):
    """The paths named by an exception: tuples of annotations, with the exception that ends each."""
    here = []
    for i in e.trace:
        a = i.annotation
        if a is None:
            continue
        k = a[0].value
        if k in ('field', 'index', 'key', 'value'):
            here.append((k, a[1]))
    yield tuple(here), e
    if depth < 30:
        for s in e.exceptions:
            for p, x in walk(s, depth + 1):
                yield tuple(here) + (('u',),) + p, x


def matches(steps, path, doc, bad):
    """Does a path named by an exception say the same as the steps to the bad element of the document?"""
    if len(steps) != len(path):
        return False
    for s, p in zip(steps, path):
        if s[0] == 'u' or p[0] == 'u':
            if s[0] != p[0]:
                return False
            continue
        if s[0] == 'k':
            if p[0] != 'key' or p[1] != bad:
                return False
            continue
        doc = doc[s[-1]]
        if s[0] == 'f':
            if p[0] != 'field' or p[1] not in s[1:]:
                return False
        elif s[0] == 'i':
            if p != ('index', s[1]) or type(p[1]) is not int:
                return False
        elif s[0] == 'v':
            if p[0] != 'value' or not (p[1] is doc or p[1] == doc):
                return False
    return True
