"""Schemas of supported types, values of them, documents for them - all drawn from a Chooser.

Everything here is independent of typedload: `real` builds the typed value directly, `doc` builds the
document that a user would store for it, `conforms` is a checker of type conformance. So "what loading
this document must give" is known by construction.

An abstract value (av) is a plain description of a value, from which the typed value can be built with
the classes of any node.
"""
import argparse
import copy
import datetime
import ipaddress
import pathlib
import re
import uuid

STR, BIG, MAP, NUL = 'zz!(', 987654321987654321987, {'zz!': 5}, None
POISONS = (STR, BIG, MAP, NUL)


def _pname(p):
    return 'S' if p == STR and isinstance(p, str) else 'I' if isinstance(p, int) else 'D' if isinstance(p, dict) else 'N'


class Cfg:
    """Settings shared by loader and dumper."""
    def __init__(self, basiccast=True, failonextra=False, mangle_key='name', isodates=True, hidedefault=True, json=False, **extra):
        self.basiccast = basiccast
        self.failonextra = failonextra
        self.mangle_key = mangle_key
        self.isodates = isodates
        self.hidedefault = hidedefault
        self.json = json        # documents go through JSON text
        self.extra = extra
        self.namespaces = False
        self.more = ()          # basictypes added by the user

    def more_kw(self):
        return {'basictypes': {int, bool, float, str, type(None)} | set(self.more)} if self.more else {}

    def loader_kw(self):
        return dict(basiccast=self.basiccast, failonextra=self.failonextra, mangle_key=self.mangle_key, **self.more_kw(), **self.extra)

    def dumper_kw(self):
        return dict(hidedefault=self.hidedefault, isodates=self.isodates, mangle_key=self.mangle_key, **self.more_kw())

    def __repr__(self):
        return 'Cfg(%s)' % ', '.join('%s=%r' % i for i in sorted(vars(self).items()))


def gen_cfg(ch, json=False):
    return Cfg(basiccast=not ch.flag(35), failonextra=ch.flag(35), mangle_key='alt' if ch.flag(25) else 'name',
               isodates=True, hidedefault=not ch.flag(40), json=json)


class T:
    hashable = False
    cat = None            # category for building unambiguous unions; None: never inside a union
    basic = False

    def rejects(self, p, cfg):
        """Is the poison p certainly rejected, at this very place?"""
        return False

    def children(self, av, doc, cfg):
        """(step, type, av, subdoc) for each part; step is ('f', name, key) | ('i', n) | ('v', key)"""
        return ()

    def deref(self):
        return self

    def key_ok(self, cfg):
        """Can its document be a dictionary key?"""
        return False

    def refs(self):
        return ()


CHARS = 'abzAZ019 _-.,:;/\\"\'{}[]()\n\t\r\x00\x7fé\u0308ß漢😀\u2028\xa0'


class Basic(T):
    basic = True
    hashable = True

    def __init__(self, name):
        self.name = name
        self.cat = name
        self.pytype = {'int': int, 'float': float, 'str': str, 'bool': bool, 'none': type(None), 'bytes': bytes, 'complex': complex}[name]

    def src(self):
        return 'None' if self.name == 'none' else self.name

    def gen(self, ch, d):
        n = self.name
        if n == 'int':
            if ch.draw(3) == 0:
                return 0
            if ch.flag(20):
                return (ch.draw(1 << 20) << ch.draw(60)) * (-1 if ch.flag(50) else 1)
            return ch.pick([1, 2, 3, -1, 7, 42, 255, 10 ** 6, -10 ** 9, 2 ** 31, 2 ** 63, 2 ** 70])
        if n == 'float':
            if ch.flag(20):
                return (1 + ch.draw(10 ** 6)) / 10.0 ** (ch.draw(30) - 10) * (-1 if ch.flag(40) else 1)
            return ch.pick([0.0, 1.0, 0.5, -2.25, 3.14, 1e300, -1e-300, 100.0, 0.1, float(2 ** 53)])
        if n == 'str':
            if ch.flag(20):
                return ''.join(ch.pick(CHARS) for _ in range(1 + ch.draw(6)))
            return ch.pick(['', 'a', 'b', 'hello', 'x y', '12', 'true', 'None', 'zażółć', '\u0000q', 'k' * 40, '1.5', 'name', '-', '~/a', '%s{0}', '$HOME'])
        if n == 'bool':
            return bool(ch.draw(2))
        if n == 'bytes':
            return ch.pick([b'', b'a', b'\x00\xff', b'12', b'hello' * 9])
        if n == 'complex':
            return ch.pick([1j, 0j, 2.5 + 1j, -1e300j, 3 - 0.5j])
        return None

    def real(self, av, ns):
        return av

    def doc(self, av, cfg, ch=None):
        if ch is not None and cfg.basiccast and ch.flag(12):
            n = self.name
            if n == 'int':
                return str(av)
            if n == 'float' and av == int(av) and abs(av) < 1e15 and repr(av) != '-0.0':
                return int(av)
            if n == 'float':
                return repr(av)
        return av

    def conforms(self, v, ns):
        if self.name == 'int':
            return isinstance(v, int)
        return type(v) is self.pytype

    def rejects(self, p, cfg):
        k = _pname(p)
        n = self.name
        if n == 'none':
            return k != 'N'
        if not cfg.basiccast:
            return not {'int': k == 'I', 'str': k == 'S'}.get(n, False)
        if n in ('int', 'float', 'complex'):
            return k in 'SDN'
        return False

    def key_ok(self, cfg):
        if self.name == 'str':
            return True
        if self.name in ('int', 'float'):
            return not cfg.json or cfg.basiccast
        return False


class AnyT(T):
    def src(self):
        return 'Any'

    def gen(self, ch, d):
        return gen_json(ch, min(d, 2))

    def real(self, av, ns):
        return _copy(av)

    def doc(self, av, cfg, ch=None):
        return _copy(av)

    def conforms(self, v, ns):
        return True


def _copy(v):
    if type(v) is list:
        return [_copy(i) for i in v]
    if type(v) is dict:
        return {k: _copy(x) for k, x in v.items()}
    return v


def gen_json(ch, d, wild=False):
    """Any JSON-like value; wild adds what JSON cannot say but in-memory documents can."""
    k = ch.draw(9 if not wild else 13 if wild != 'json' else 11)
    if wild == 'json' and k == 10:
        k = 11
    if k == 0:
        return None
    if k == 1:
        return ch.pick([0, 1, -5, 12, 3, 2 ** 40, 10 ** 30])
    if k == 2:
        return ch.pick(['', 'a', 'zz', '1', '2020-01-01', 'é', 'k1', '[', '\ud800'])
    if k == 3:
        return ch.pick([0.5, 1.0, -1e10, 1e308])
    if k == 4:
        return bool(ch.draw(2))
    if k in (5, 6):
        if d <= 0:
            return []
        return [gen_json(ch, d - 1, wild) for _ in range(ch.draw(4))]
    if k in (7, 8):
        if d <= 0:
            return {}
        return {ch.pick(['a', 'b', 'k1', 'type', 'f0', 'f1', 'f2', 'f-0']): gen_json(ch, d - 1, wild) for _ in range(ch.draw(4))}
    if k == 9:
        return ch.pick([float('nan'), float('inf'), -float('inf')])
    if k == 10:
        return {ch.pick([1, None, 2.5, True, (1, 2)]): gen_json(ch, d - 1, wild), 'f0': 1}
    if k == 11:
        return ch.pick([10 ** 400, -10 ** 25, 1e19, 2 ** 62 + 1])
    assert k == 12
    return ch.pick([(), (1, 'a'), b'by', {1, 2}])


# ---------------------------------------------------------------- containers

class Seq(T):
    cat = 'listy'
    SRC = {'list': ('List', 'list'), 'set': ('Set', 'set'), 'frozenset': ('FrozenSet', 'frozenset'), 'tuple': ('Tuple', 'tuple')}

    def __init__(self, kind, t, modern):
        self.kind = kind
        self.t = t
        self.modern = modern and not list(t.refs())
        self.pytype = {'list': list, 'set': set, 'frozenset': frozenset, 'tuple': tuple}[kind]
        self.hashable = kind in ('frozenset', 'tuple') and t.hashable

    def src(self):
        n = self.SRC[self.kind][1 if self.modern else 0]
        return '%s[%s%s]' % (n, self.t.src(), ', ...' if self.kind == 'tuple' else '')

    def gen(self, ch, d):
        if d <= 0:
            return []
        n = ch.weighted([(3, 0), (4, 1), (5, 2), (4, 3), (1, 6), (1, 17)])
        if n > 3 and not self.t.deref().basic:
            n = 4
        return [self.t.gen(ch, d - 1) for _ in range(n)]

    def real(self, av, ns):
        return self.pytype([self.t.real(i, ns) for i in av])

    def doc(self, av, cfg, ch=None):
        r = [self.t.doc(i, cfg, ch) for i in av]
        if ch is not None and not cfg.json and ch.flag(8):
            return tuple(r)
        return r

    def conforms(self, v, ns):
        return type(v) is self.pytype and all(self.t.conforms(i, ns) for i in v)

    def rejects(self, p, cfg):
        return _pname(p) in 'IDN'

    def children(self, av, doc, cfg):
        for i, (a, s) in enumerate(zip(av, doc)):
            yield ('i', i), self.t, a, s

    def refs(self):
        return self.t.refs()


class Tup(T):
    cat = 'listy'

    def __init__(self, ts, modern):
        self.ts = ts
        self.modern = modern and not any(list(t.refs()) for t in ts)
        self.hashable = all(t.hashable for t in ts)

    def src(self):
        return '%s[%s]' % ('tuple' if self.modern else 'Tuple', ', '.join(t.src() for t in self.ts))

    def gen(self, ch, d):
        return [t.gen(ch, d - 1) for t in self.ts]

    def real(self, av, ns):
        return tuple(t.real(a, ns) for t, a in zip(self.ts, av))

    def doc(self, av, cfg, ch=None):
        r = [t.doc(a, cfg, ch) for t, a in zip(self.ts, av)]
        if ch is None and not cfg.json and self.hashable:
            try:
                r = tuple(r)
                hash(r)
            except TypeError:
                r = list(r)
        return r

    def conforms(self, v, ns):
        return type(v) is tuple and len(v) == len(self.ts) and all(t.conforms(i, ns) for t, i in zip(self.ts, v))

    def rejects(self, p, cfg):
        return _pname(p) in 'IDN'

    def children(self, av, doc, cfg):
        for i, (t, a, s) in enumerate(zip(self.ts, av, doc)):
            yield ('i', i), t, a, s

    def key_ok(self, cfg):
        return not cfg.json and self.hashable and all(t.key_ok(cfg) for t in self.ts)

    def refs(self):
        for t in self.ts:
            yield from t.refs()


class Dct(T):
    cat = 'mappy'

    def __init__(self, k, v, modern):
        self.k = k
        self.v = v
        self.modern = modern and not list(v.refs())

    def src(self):
        return '%s[%s, %s]' % ('dict' if self.modern else 'Dict', self.k.src(), self.v.src())

    def gen(self, ch, d):
        if d <= 0:
            return []
        n = ch.weighted([(2, 0), (4, 1), (4, 2), (3, 3), (1, 7)])
        r = []
        seen = set()
        for _ in range(n):
            k = self.k.gen(ch, d - 1)
            h = repr(k)
            # equal keys of different kinds (1, True, 1.0) and equal text are kept apart
            if h in seen or (self.k.deref().basic and any(k == o for o, _ in r)):
                continue
            seen.add(h)
            r.append((k, self.v.gen(ch, d - 1)))
        return r

    def real(self, av, ns):
        return {self.k.real(k, ns): self.v.real(v, ns) for k, v in av}

    def doc(self, av, cfg, ch=None):
        return {self.k.doc(k, cfg): self.v.doc(v, cfg, ch) for k, v in av}

    def conforms(self, v, ns):
        return type(v) is dict and all(self.k.conforms(k, ns) and self.v.conforms(x, ns) for k, x in v.items())

    def rejects(self, p, cfg):
        return _pname(p) in 'SIN'

    def children(self, av, doc, cfg):
        for k, v in av:
            dk = self.k.doc(k, cfg)
            if dk in doc:
                yield ('v', dk), self.v, v, doc[dk]

    def refs(self):
        return self.v.refs()


# ---------------------------------------------------------------- string constructed and dates

class Strc(T):
    """Types whose document is a string (or, for timedelta, a number)."""
    hashable = True
    SAMPLES = {
        'Path': ['a', 'a/b', '/tmp/x.txt', '.', '/', '~', '~/a.b', '../b', '/tmp/../c', '$HOME/x', '%s'],
        'IPv4Address': ['10.1.1.3', '0.0.0.0', '255.1.2.3'],
        'IPv6Address': ['::1', 'fe80::1', '2001:db8::8:800:200c:417a'],
        'IPv4Network': ['10.0.0.0/8', '192.168.1.0/24'],
        'IPv6Network': ['2001:db8::/32', '::/0'],
        'IPv4Interface': ['10.1.1.3/24', '1.2.3.4/32'],
        'IPv6Interface': ['::1/128', 'fe80::1/64'],
        'UUID': ['12345678-1234-5678-1234-567812345678', '00000000-0000-0000-0000-000000000001'],
        'Pattern': ['a+', '', '[a-z]{2,3}', '(x|y)*$', r'\d'],
        'date': ['2020-01-01', '1999-12-31', '0001-01-01', '9999-12-31'],
        'time': ['10:20:30', '00:00:00', '23:59:59.123456', '01:02:03+02:00'],
        'datetime': ['2020-01-01T10:20:30', '1999-12-31T00:00:00.000001', '2020-05-05T05:05:05+00:00', '2020-02-29T01:02:03-03:30'],
        'timedelta': [0.0, 1.0, 90061.5, -3.25, 0.000001, 86400.0, 5.0],
    }
    MAKE = {
        'Path': pathlib.Path, 'IPv4Address': ipaddress.IPv4Address, 'IPv6Address': ipaddress.IPv6Address,
        'IPv4Network': ipaddress.IPv4Network, 'IPv6Network': ipaddress.IPv6Network,
        'IPv4Interface': ipaddress.IPv4Interface, 'IPv6Interface': ipaddress.IPv6Interface,
        'UUID': uuid.UUID, 'Pattern': re.compile, 'date': datetime.date.fromisoformat,
        'time': datetime.time.fromisoformat, 'datetime': datetime.datetime.fromisoformat,
        'timedelta': lambda s: datetime.timedelta(microseconds=round(s * 1e6)),
    }
    SRC = {'date': 'datetime.date', 'time': 'datetime.time', 'datetime': 'datetime.datetime',
           'timedelta': 'datetime.timedelta', 'Pattern': 're.Pattern'}

    def __init__(self, name, spelled=None):
        self.name = name
        self.spelled = spelled
        self.cat = 'number' if name == 'timedelta' else 'stringy'

    def src(self):
        return self.spelled or self.SRC.get(self.name, self.name)

    def gen(self, ch, d):
        return ch.pick(self.SAMPLES[self.name]) if ch.flag(60) else self.random(ch)

    def random(self, ch):
        n = self.name
        if n == 'Path':
            return ('/' if ch.flag(30) else '') + '/'.join(''.join(ch.pick('ab.é -_0') for _ in range(1 + ch.draw(4))) for _ in range(1 + ch.draw(3)))
        if n.startswith('IPv4'):
            a = ipaddress.IPv4Address(ch.draw(1 << 32))
            p = ch.draw(33)
        elif n.startswith('IPv6'):
            a = ipaddress.IPv6Address((ch.draw(1 << 32) << ch.draw(97)) | ch.draw(1 << 16))
            p = ch.draw(129)
        if n.endswith('Address'):
            return str(a)
        if n.endswith('Interface'):
            return '%s/%d' % (a, p)
        if n.endswith('Network'):
            return str(ipaddress.ip_network('%s/%d' % (a, p), strict=False))
        if n == 'UUID':
            return str(uuid.UUID(int=(ch.draw(1 << 32) << 96) | (ch.draw(1 << 32) << 40) | ch.draw(1 << 32)))
        if n == 'date' or n == 'datetime':
            d = datetime.date.fromordinal(1 + ch.draw(datetime.date.max.toordinal()))
        if n == 'time' or n == 'datetime':
            tz = None
            if ch.flag(35):
                tz = datetime.timezone(datetime.timedelta(seconds=(ch.draw(2 * 1439) - 1439) * 60 + (ch.draw(60) if ch.flag(20) else 0)))
            t = datetime.time(ch.draw(24), ch.draw(60), ch.draw(60), ch.pick([0, 1, 1000, 999999, ch.draw(10 ** 6)]), tzinfo=tz)
        if n == 'date':
            return d.isoformat()
        if n == 'time':
            return t.isoformat()
        if n == 'datetime':
            return datetime.datetime.combine(d, t).isoformat()
        if n == 'timedelta':
            return (ch.draw(10 ** ch.rng_int(1, 15)) * (-1 if ch.flag(40) else 1)) / 1e6
        return ch.pick(self.SAMPLES[n])

    def real(self, av, ns):
        return self.MAKE[self.name](av)

    def doc(self, av, cfg, ch=None):
        n = self.name
        if n in ('date', 'time', 'datetime'):
            v = self.MAKE[n](av)
            if not cfg.isodates or (ch is not None and not cfg.json and ch.flag(10)):
                if n == 'date':
                    return [v.year, v.month, v.day]
                if v.tzinfo is None:
                    t = [v.hour, v.minute, v.second, v.microsecond]
                    return t if n == 'time' else [v.year, v.month, v.day] + t
            return v.isoformat()
        if n in ('timedelta', 'Pattern'):
            return av
        return str(self.MAKE[n](av))

    def conforms(self, v, ns):
        n = self.name
        if n == 'Pattern':
            return isinstance(v, re.Pattern) and type(v.pattern) in ((str,) if self.spelled and 'str' in self.spelled else (str, bytes))
        if n in ('date', 'time', 'datetime', 'timedelta'):
            return type(v) is getattr(datetime, n)
        return isinstance(v, self.MAKE[n])

    def rejects(self, p, cfg):
        k, n = _pname(p), self.name
        if n == 'Path':
            return k != 'S'
        if n.startswith('IPv6'):
            return k != 'I'
        return True

    def key_ok(self, cfg):
        if self.name == 'Pattern':
            return not cfg.json
        if self.name == 'timedelta':
            return not cfg.json
        return cfg.isodates or self.name not in ('date', 'time', 'datetime')


# ---------------------------------------------------------------- types with a handler of the user

class CustT(T):
    """A class of the user, loaded and dumped by custom handlers."""
    hashable = True

    def __init__(self, name, form, rejection):
        self.name = name
        self.form = form            # 's': documents are strings; 'd': dictionaries
        self.rejection = rejection  # class of the exception the handler rejects values with
        self.cat = 'stringy' if form == 's' else 'mappy'
        self.picky = False          # rejects payloads ending in !
        self.legacy = False         # the dump handler is of the old kind

    def define(self):
        ok = "isinstance(value, str) and value.startswith('x:')" if self.form == 's' else "isinstance(value, dict) and type(value.get('$x')) is str"
        arg = 'value[2:]' if self.form == 's' else "value['$x']"
        if self.picky:
            ok += " and not %s.endswith('!')" % arg
        out = "'x:' + value.v" if self.form == 's' else "{'$x': value.v}"
        src = CUSTOM_SRC
        if self.legacy:
            src = src.replace('(d, value, t)', '(d, value)')
        return src.replace('NAME', self.name).replace('@OK', ok).replace('@ARG', arg).replace('@OUT', out).replace('REJECTION', self.rejection)

    def src(self):
        return self.name

    def gen(self, ch, d):
        return ch.pick(['', 'a', 'pay load', 'é', 'x:y', '12'])

    def real(self, av, ns):
        return ns[self.name](av)

    def doc(self, av, cfg, ch=None):
        return 'x:' + av if self.form == 's' else {'$x': av}

    def conforms(self, v, ns):
        return type(v) is ns[self.name]

    def rejects(self, p, cfg):
        return True

    def key_ok(self, cfg):
        return self.form == 's'


CUSTOM_SRC = '''class NAME:
    def __init__(self, v):
        HOOK('NAME.__init__', v)
        self.v = v
    def __eq__(self, other):
        return type(other) is NAME and self.v == other.v
    def __hash__(self):
        return hash(self.v)
    def __repr__(self):
        return 'NAME(%r)' % (self.v,)
def load_NAME(l, value, t):
    HOOK('load handler of NAME', value, l)
    if @OK:
        return t(@ARG)
    raise __typedload_exceptions__.REJECTION('not a NAME', value=value, type_=t)
def dump_NAME(d, value, t):
    HOOK('dump handler of NAME', value, d)
    return @OUT
LOAD_HANDLERS.append((lambda t: t is NAME, load_NAME))
DUMP_HANDLERS.append((lambda v: type(v) is NAME, dump_NAME))
'''
HOOKS_SRC = '''LOAD_HANDLERS = []
DUMP_HANDLERS = []
_hook = None
def HOOK(where, value=None, obj=None):
    if _hook is not None:
        _hook(where, value, obj)
def make_list():
    HOOK('factory')
    return []
def make_dict():
    HOOK('factory')
    return {}
def make_set():
    HOOK('factory')
    return set()
def VALIDATOR(instance, attribute, value):
    HOOK('validator', value)
'''


class CustPair(T):
    """A union of two classes of the user, with handlers that take the same kind of document; the first one rejects some."""
    hashable = True

    def __init__(self, a, b):
        self.a = a
        self.b = b

    def src(self):
        return 'Union[%s, %s]' % (self.a.name, self.b.name)

    def gen(self, ch, d):
        return (self.a.gen(ch, d), ch.draw(2))

    def real(self, av, ns):
        return ns[self.b.name](av[0] + '!') if av[1] else ns[self.a.name](av[0])

    def doc(self, av, cfg, ch=None):
        return self.a.doc(av[0] + '!' * av[1], cfg)

    def conforms(self, v, ns):
        return self.a.conforms(v, ns) or self.b.conforms(v, ns)

    def rejects(self, p, cfg):
        return True


# ---------------------------------------------------------------- enum, literal, newtype

class EnumT(T):
    hashable = True

    def __init__(self, name, members, hint=None, base='Enum'):
        self.name = name
        self.members = members      # [(name, value)]
        self.hint = hint            # annotation of the members (source), or None
        self.base = base
        self.cat = 'enum'

    def define(self):
        return 'class %s(%s):\n' % (self.name, self.base) + ''.join(
            '    %s%s = %r\n' % (n, ': ' + self.hint if self.hint else '', v) for n, v in self.members)

    def src(self):
        return self.name

    def gen(self, ch, d):
        return ch.draw(len(self.members))

    def real(self, av, ns):
        return ns[self.name][self.members[av][0]]

    def doc(self, av, cfg, ch=None):
        v = self.members[av][1]
        return list(v) if isinstance(v, tuple) else v

    def conforms(self, v, ns):
        return type(v) is ns[self.name]

    def rejects(self, p, cfg):
        return True

    def key_ok(self, cfg):
        return all(isinstance(v, str) or (isinstance(v, int) and not cfg.json) for _, v in self.members) and not self.hint

    def doctypes(self):
        return {type(v) for _, v in self.members}


class WildEnum(EnumT):
    """The members have type hints of their own, and their documents fit more than one of them."""
    hashable = True

    def __init__(self, name, kinds, hints, docs):
        self.name = name
        self.kinds = kinds          # kind of each of the classes used as hints
        self.hints = hints          # the hint of each member: index of a class
        self.docs = docs            # the document of each member
        self.members = [('M%d' % i, v) for i, v in enumerate(docs)]
        self.cat = 'enum'

    def define(self):
        r = ''
        for i, k in enumerate(self.kinds):
            h = '%sH%d' % (self.name, i)
            if k == 'dc':
                r += '@dataclass(frozen=True)\nclass %s:\n    a: int\n    b: int = 0\n' % h
            elif k == 'attrs':
                r += '@attr.s(auto_attribs=True, frozen=True)\nclass %s:\n    a: int\n    b: int = 0\n' % h
            else:
                r += 'class %s(NamedTuple):\n    a: int\n    b: int = 0\n    z: int = %d\n' % (h, i)
        r += 'class %s(Enum):\n' % self.name
        for (n, v), h in zip(self.members, self.hints):
            h = '%sH%d' % (self.name, h)
            r += '    %s: %s = %s(**%r)\n' % (n, h, h, v)
        return r

    def real(self, av, ns):
        return ns[self.name][self.members[av][0]]

    def doc(self, av, cfg, ch=None):
        return dict(self.docs[av])

    def key_ok(self, cfg):
        return False


class ForeignT(T):
    """A class that is not supported unless the settings say so."""
    SRC = '''class Foreign:
    def __init__(self, v):
        if type(v) is not str or v[:2] != 'f:':
            raise ValueError('not for Foreign')
        self.v = v
    def __eq__(self, other):
        return type(other) is type(self) and self.v == other.v
    def __hash__(self):
        return hash(self.v)
    def __str__(self):
        return self.v
    __repr__ = __str__
'''

    def src(self):
        return 'Foreign'

    def define(self):
        return self.SRC

    def gen(self, ch, d):
        return 'f:' + ch.pick(['', 'a', 'b'])

    def real(self, av, ns):
        return ns['Foreign'](av)

    def doc(self, av, cfg, ch=None):
        return av

    def conforms(self, v, ns):
        return type(v) is ns['Foreign']


class LitT(T):
    hashable = True
    cat = 'literal'

    def __init__(self, values):
        self.values = values

    def src(self):
        return 'Literal[%s]' % ', '.join(repr(v) for v in self.values)

    def gen(self, ch, d):
        return ch.draw(len(self.values))

    def real(self, av, ns):
        return self.values[av]

    def doc(self, av, cfg, ch=None):
        return self.values[av]

    def conforms(self, v, ns):
        return v in self.values

    def rejects(self, p, cfg):
        return p not in self.values

    def key_ok(self, cfg):
        return all(isinstance(v, str) for v in self.values)

    def doctypes(self):
        return {type(v) for v in self.values}


class NewT(T):
    def __init__(self, name, t):
        self.name = name
        self.t = t
        self.hashable = t.hashable

    def define(self):
        return '%s = NewType(%r, %s)\n' % (self.name, self.name, self.t.src())

    def src(self):
        return self.name

    def gen(self, ch, d):
        return self.t.gen(ch, d)

    def real(self, av, ns):
        return self.t.real(av, ns)

    def doc(self, av, cfg, ch=None):
        return self.t.doc(av, cfg, ch)

    def conforms(self, v, ns):
        return self.t.conforms(v, ns)

    def rejects(self, p, cfg):
        return self.t.rejects(p, cfg)

    def children(self, av, doc, cfg):
        return self.t.children(av, doc, cfg)

    def deref(self):
        return self.t.deref()

    def key_ok(self, cfg):
        return self.t.key_ok(cfg)

    def refs(self):
        return self.t.refs()


# ---------------------------------------------------------------- unions

class Uni(T):
    """Members are chosen so that a valid document of one of them fits no other one."""
    def __init__(self, ts, style):
        self.ts = ts
        self.style = style if not any(list(t.refs()) for t in ts) else 'Union'
        self.hashable = all(t.hashable for t in ts)

    def src(self):
        if self.style == 'pipe':
            return ' | '.join(t.src() for t in self.ts)
        if len(self.ts) == 2 and self.ts[1].src() == 'None' and self.style == 'Optional':
            return 'Optional[%s]' % self.ts[0].src()
        return 'Union[%s]' % ', '.join(t.src() for t in self.ts)

    def gen(self, ch, d):
        if d <= 0:
            for i, t in enumerate(self.ts):
                if t.basic:
                    return [i, t.gen(ch, 0)]
        i = ch.draw(len(self.ts))
        return [i, self.ts[i].gen(ch, d - 1)]

    def real(self, av, ns):
        return self.ts[av[0]].real(av[1], ns)

    def doc(self, av, cfg, ch=None):
        t = self.ts[av[0]]
        return t.doc(av[1], cfg, None if t.basic or t.cat in ('stringy', 'number', 'enum', 'literal', 'listy') else ch)

    def conforms(self, v, ns):
        return any(t.conforms(v, ns) for t in self.ts)

    def rejects(self, p, cfg):
        return all(t.rejects(p, cfg) for t in self.ts)

    def children(self, av, doc, cfg):
        for step, t, a, s in self.ts[av[0]].children(av[1], doc, cfg):
            yield ('u',) + step, t, a, s

    def key_ok(self, cfg):
        return not cfg.json and all(t.key_ok(cfg) for t in self.ts) and self.hashable

    def refs(self):
        for t in self.ts:
            yield from t.refs()


# ---------------------------------------------------------------- objects

class Field:
    __slots__ = ('name', 't', 'default', 'mangle', 'optional', 'converter', 'validator', 'factory', 'convert')

    def __init__(self, name, t, default=None, mangle=None, optional=False):
        self.name = name
        self.t = t
        self.default = default      # None: required; ('lit', av) or ('factory', 'list'|'dict'|'set')
        self.mangle = mangle or {}
        self.optional = optional    # TypedDict: key may be absent
        self.converter = None       # attrs: name of the converter function
        self.convert = None         # attrs: source of a converter that says nothing about types
        self.validator = None
        self.factory = None         # name of a factory to use instead of list, dict, set
        # further kinds of default: ('made', av): a factory giving that value; ('self', expression): made from the instance

    def key(self, cfg):
        return self.mangle.get(cfg.mangle_key, self.name)

    def required(self):
        return self.default is None and not self.optional


class Obj(T):
    """A reference to a class of the schema; self references are spelled as forward references."""
    cat = 'mappy'

    def __init__(self, cls, forward=False):
        self.cls = cls
        self.forward = forward

    @property
    def hashable(self):
        return self.cls.hashable()

    def src(self):
        return repr(self.cls.name) if self.forward else self.cls.name

    def gen(self, ch, d):
        r = {}
        for f in self.cls.fields:
            if not f.required() and (d <= -1 or ch.flag(40)):
                continue
            r[f.name] = f.t.gen(ch, d - 1)
            if f.default is not None and f.default[0] == 'lit' and ch.flag(10):
                # what looks like the default
                t = f.t.deref()
                if isinstance(t, Uni):
                    for i, m in enumerate(t.ts):
                        if m.basic and m.name == 'str':
                            r[f.name] = [i, str(t.real(f.default[1], {}))]
                elif t.basic and t.name == 'str':
                    r[f.name] = f.default[1] + ' '
        return r

    def real(self, av, ns):
        kw = {f.name: f.t.real(av[f.name], ns) for f in self.cls.fields if f.name in av}
        return ns[self.cls.name](**kw)

    def doc(self, av, cfg, ch=None):
        fields = [f for f in self.cls.fields if f.name in av]
        if ch is not None and ch.flag(20):
            fields = ch.shuffled(fields)
        r = {f.key(cfg): f.t.doc(av[f.name], cfg, ch) for f in fields}
        if ch is not None and not cfg.failonextra and ch.flag(8):
            r['extra field'] = ch.pick([1, None, [1], {'a': 1}])
        if (ch is not None and not cfg.json and cfg.extra.get('dictequivalence', True) and cfg.namespaces and ch.flag(5)
                and not self.cls.mangled()):
            return argparse.Namespace(**r)
        return r

    def conforms(self, v, ns):
        c = self.cls
        if c.kind == 'td':
            if type(v) is not dict:
                return False
            names = {f.name: f for f in c.fields}
            return (all(k in names and names[k].t.conforms(x, ns) for k, x in v.items())
                    and all(f.name in v for f in c.fields if f.required()))
        if type(v) is not ns[c.name]:
            return False
        return all(f.t.conforms(getattr(v, f.name), ns) for f in c.fields)

    def rejects(self, p, cfg):
        if _pname(p) == 'D':
            return any(f.required() for f in self.cls.fields) or cfg.failonextra
        return True

    def children(self, av, doc, cfg):
        for f in self.cls.fields:
            k = f.key(cfg)
            if f.name in av and k in doc:
                yield ('f', f.name, k), f.t, av[f.name], doc[k]

    def refs(self):
        if self.forward:
            yield self.cls.name


class Cls:
    """Definition of an object type."""
    def __init__(self, name, kind, style=''):
        self.name = name
        self.kind = kind            # nt dc attrs td
        self.style = style
        self.fields = []
        self.base = None            # class inherited from (its fields come first)
        self.redefined = None       # the fields that the body defines, when it redefines some of the base
        self.extra_src = ''         # additional body lines
        self.label = None           # the name that it has, when it is not the one under which the schema knows it
        self.noinit = []            # (name, source of the type, source of the value, metadata, computed): fields with init=False

    def hashable(self):
        if self.kind == 'nt' or (self.kind in ('dc', 'attrs') and 'frozen' in self.style):
            return all(f.t.hashable and not (f.default and f.default[0] == 'factory') for f in self.fields) and not self.noinit
        return False

    def mangled(self):
        c = self
        while c is not None:
            if any(f.mangle for f in c.fields) or any(n[3] for n in c.noinit):
                return True
            c = c.base
        return False

    def own_fields(self):
        if self.redefined is not None:
            return self.redefined
        n = len(self.base.fields) if self.base else 0
        return self.fields[n:]

    def define(self):
        k = self.kind
        L = []
        body = []
        base = self.base.name if self.base else None
        if k == 'nt':
            L.append('class %s(NamedTuple):' % self.name)
            for f in self.fields:
                d = '' if f.default is None else ' = ' + _default_src(f)
                body.append('%s: %s%s' % (f.name, f.t.src(), d))
        elif k == 'td' and 'functional' in self.style:
            # any string can be the name of a field
            total = 'nontotal' not in self.style
            return '%s = TypedDict(%r, {%s}%s)\n' % (self.name, self.name, ', '.join(
                '%r: %s' % (f.name, ('NotRequired[%s]' if f.optional and total else '%s') % f.t.src()) for f in self.fields), '' if total else ', total=False') + self.relabel()
        elif k == 'td':
            total = 'nontotal' not in self.style
            L.append('class %s(%s%s):' % (self.name, base or 'TypedDict', '' if total else ', total=False'))
            for f in self.own_fields():
                s = f.t.src()
                if f.optional and total:
                    s = 'NotRequired[%s]' % s
                body.append('%s: %s' % (f.name, s))
        elif k == 'dc':
            opts = [o + '=True' for o in ('frozen', 'slots', 'kw_only') if o in self.style]
            L.append('@dataclass(%s)' % ', '.join(opts))
            L.append('class %s%s:' % (self.name, '(%s)' % base if base else ''))
            for f in self.own_fields():
                a = []
                if f.default is not None:
                    a.append('default_factory=%s' % (f.factory or f.default[1]) if f.default[0] == 'factory' else
                             'default_factory=lambda: %s' % _default_src(f) if f.default[0] == 'made' else 'default=%s' % _default_src(f))
                if f.mangle:
                    a.append('metadata=%r' % f.mangle)
                if not f.mangle and f.default is not None and f.default[0] == 'lit':
                    body.append('%s: %s = %s' % (f.name, f.t.src(), _default_src(f)))
                elif a:
                    body.append('%s: %s = field(%s)' % (f.name, f.t.src(), ', '.join(a)))
                else:
                    body.append('%s: %s' % (f.name, f.t.src()))
        elif k == 'attrs':
            if 'define' in self.style:
                L.append('@attrs.%s' % ('frozen' if 'frozen' in self.style else 'define'))
                ib = 'attrs.field'
            else:
                opts = [o + '=True' for o in ('auto_attribs', 'frozen', 'slots', 'kw_only') if o in self.style]
                L.append('@attr.s(%s)' % ', '.join(opts))
                ib = 'attr.ib'
            L.append('class %s%s:' % (self.name, '(%s)' % base if base else ''))
            typed = 'define' in self.style or 'auto_attribs' in self.style
            for f in self.own_fields():
                a = []
                if not typed:
                    a.append('type=%s' % f.t.src())
                if f.default is not None:
                    a.append('factory=%s' % (f.factory or f.default[1]) if f.default[0] == 'factory' else
                             'factory=lambda: %s' % _default_src(f) if f.default[0] == 'made' else
                             'default=attr.Factory(lambda self: %s, takes_self=True)' % f.default[1] if f.default[0] == 'self' else
                             'default=%s' % _default_src(f))
                if f.mangle:
                    a.append('metadata=%r' % f.mangle)
                if f.convert:
                    a.append('converter=' + f.convert)
                elif f.converter:
                    a.append('converter=' + f.converter)
                    L.insert(0, 'def %s(value: %s):\n    HOOK("converter", value)\n    return value' % (f.converter, f.t.src()))
                if f.validator:
                    a.append('validator=' + f.validator)
                body.append('%s%s = %s(%s)' % (f.name, ': ' + f.t.src() if typed else '', ib, ', '.join(a)))
        for name, t, value, metadata, computed in self.noinit:
            a = ['init=False']
            if metadata:
                a.append('metadata=%r' % metadata)
            if not computed:
                a.append('default=' + value)
            if k == 'dc':
                body.append('%s: %s = field(%s)' % (name, t, ', '.join(a)))
            elif typed:
                body.append('%s: %s = %s(%s)' % (name, t, ib, ', '.join(a)))
            else:
                body.append('%s = %s(type=%s, %s)' % (name, ib, t, ', '.join(a)))
        if any(n[4] for n in self.noinit):
            body.append('def %s(self):' % ('__post_init__' if k == 'dc' else '__attrs_post_init__'))
            if self.base is not None and any(n[4] for n in self.base.noinit):
                body.append('    %s.__post_init__(self)' % self.base.name if k == 'dc' else '    %s.__attrs_post_init__(self)' % self.base.name)
            for name, t, value, metadata, computed in self.noinit:
                if computed:
                    body.append('    self.%s = %s' % (name, value))
        if self.extra_src:
            lines = self.extra_src.split('\n')
            if any(n[4] for n in self.noinit) and 'post_init__(self)' in lines[0]:
                lines = lines[1:]       # it goes on
            body.extend(lines)
        if not body:
            body.append('pass')
        return '\n'.join(L) + '\n' + ''.join('    %s\n' % b for b in body) + self.relabel()

    def relabel(self):
        return '%s.__name__ = %s.__qualname__ = %r\n' % (self.name, self.name, self.label) if self.label else ''


def _default_src(f):
    kind, v = f.default
    if kind == 'factory':
        return {'list': '[]', 'dict': '{}', 'set': 'set()'}[v]
    return default_expr(f.t, v)


def default_expr(t, av):
    t = t.deref()
    if isinstance(t, AnyT):
        return repr(av)
    if isinstance(t, Basic):
        return repr(av) if av == av else 'float("nan")'
    if isinstance(t, EnumT):
        return '%s.%s' % (t.name, t.members[av][0])
    if isinstance(t, LitT):
        return repr(t.values[av])
    if isinstance(t, CustT):
        return '%s(%r)' % (t.name, av)
    if isinstance(t, Uni):
        return default_expr(t.ts[av[0]], av[1])
    if isinstance(t, Strc):
        n = t.name
        if n in ('date', 'time', 'datetime'):
            return 'datetime.%s.fromisoformat(%r)' % (n, av)
        if n == 'timedelta':
            return 'datetime.timedelta(microseconds=%d)' % round(av * 1e6)
        if n == 'Pattern':
            return 're.compile(%r)' % av
        return '%s(%r)' % (n, av)
    if isinstance(t, Seq) and t.kind in ('tuple', 'frozenset'):
        return '%s([%s])' % (t.kind, ', '.join(default_expr(t.t, a) for a in av))
    if isinstance(t, Tup):
        return '(%s,)' % ', '.join(default_expr(x, a) for x, a in zip(t.ts, av))
    if isinstance(t, Seq):
        return '%s([%s])' % (t.kind, ', '.join(default_expr(t.t, a) for a in av))
    if isinstance(t, Dct):
        return '{%s}' % ', '.join('%s: %s' % (default_expr(t.k, k), default_expr(t.v, v)) for k, v in av)
    return None


PRELUDE = '''from typing import *
from dataclasses import dataclass, field
from enum import Enum, IntEnum, StrEnum
import datetime, re, attr, attrs
from pathlib import Path
from ipaddress import *
from uuid import UUID
from functools import partial
def second(a, b=None):
    return b
def says_only_what_it_gives(value) -> Any:
    return value
class Converting:
    def __call__(self, value):
        return value
    @classmethod
    def untouched(cls, value) -> object:
        return value
'''


class Schema:
    def __init__(self):
        self.defs = []          # Cls, EnumT, NewT, in order of definition
        self.roots = []         # T
        self._code = None
        self.more = ''          # further source
        self.hooks = False

    def src(self):
        s = PRELUDE
        if self.hooks:
            s += HOOKS_SRC
        for d in self.defs:
            s += d.define()
        for i, r in enumerate(self.roots):
            s += 'R%d = %s\n' % (i, r.src())
        return s + self.more

    def code(self):
        if self._code is None:
            self._code = compile(self.src(), '<schema>', 'exec', dont_inherit=True)
        return self._code

    def classes(self):
        return [d for d in self.defs if isinstance(d, Cls)]


def sibling(s, ch):
    """Another program: classes of the same names with the same fields, but some types and literals are others."""
    s = copy.deepcopy(s)
    s._code = None
    seen = []
    def literals(t):
        if any(t is x for x in seen):
            return
        seen.append(t)
        if isinstance(t, LitT):
            yield t
        for k in ('t', 'k', 'v'):
            if isinstance(getattr(t, k, None), T):
                yield from literals(getattr(t, k))
        for x in getattr(t, 'ts', ()):
            yield from literals(x)
        if isinstance(t, Obj):
            yield from inside(t.cls)

    def inside(c):
        if any(c is x for x in seen):
            return
        seen.append(c)
        for f in c.fields:
            yield from literals(f.t)
    lits = [l for c in s.classes() for l in inside(c)] + [l for t in s.roots for l in literals(t)]
    values = []
    for l in lits:
        values += [v for v in l.values if not any(v == x and type(v) is type(x) for x in values)]
    if len(values) > 1 and ch.flag(80):
        other = ch.shuffled(values)
        for l in lits:
            l.values = [other[[v == x and type(v) is type(x) for x in values].index(True)] for v in l.values]
    for c in s.classes():
        for f in c.fields:
            if isinstance(f.t, Basic) and f.default is None and not f.converter and ch.flag(20):
                f.t = Basic(ch.pick(['int', 'str', 'float', 'bool']))
    return s


REJECTIONS = ('TypedloadValueError', 'TypedloadTypeError', 'TypedloadException', 'TypedloadAttributeError')


class Gen:
    """Draws a schema."""
    def __init__(self, ch, json_cfg=None, kinds=('dc', 'nt', 'attrs', 'td'), recursive=True, allow_any=True, simple=False,
                 mangles=True, inherit=True, hooks=False, lists=False, odd=False):
        self.ch = ch
        self.cfg = json_cfg or Cfg()
        self.kinds = kinds
        self.recursive = recursive
        self.recursive_p = 20
        self.allow_any = allow_any
        self.simple = simple
        self.mangles = mangles
        self.inherit = inherit
        self.s = Schema()
        self.n = 0
        self.objs = []          # Cls usable
        self.enums = []
        self.newts = []
        self.hooks = self.s.hooks = hooks
        self.lists = lists      # more of them
        self.odd = odd          # factories of values, init=False, defaults made from the instance
        self.custs = []
        self.unions = True
        self.unique_names = False

    def fresh(self, prefix):
        self.n += 1
        return '%s%d' % (prefix, self.n)

    # --- leaves

    def basic(self):
        if self.cfg.more and self.ch.flag(25):
            return Basic(self.ch.pick([t.__name__ for t in self.cfg.more]))
        return Basic(self.ch.pick(['int', 'str', 'float', 'bool']))

    def custom(self, form=None):
        ch = self.ch
        cs = [c for c in self.custs if (form is None or c.form == form) and not c.picky]
        if cs and ch.flag(60):
            return ch.pick(cs)
        c = CustT(self.fresh('X'), form or ch.pick('sd'), ch.pick(REJECTIONS))
        c.legacy = ch.flag(30)
        self.custs.append(c)
        self.s.defs.append(c)
        return c

    def pair(self):
        a = CustT(self.fresh('X'), self.ch.pick('sd'), self.ch.pick(REJECTIONS))
        a.picky = True
        self.custs.append(a)
        self.s.defs.append(a)
        return CustPair(a, self.custom(a.form))

    def strc(self, exclude=()):
        if self.hooks and self.ch.flag(60):
            return self.custom('s' if exclude else None)
        names = [n for n in Strc.SAMPLES if n not in exclude]
        n = self.ch.pick(names)
        return Strc(n, self.ch.pick([None, 're.Pattern[str]', 'Pattern[str]']) if n == 'Pattern' else None)

    def enum(self):
        ch = self.ch
        if self.enums and ch.flag(50):
            return ch.pick(self.enums)
        kind = ch.draw(5)
        hint, base = None, 'Enum'
        if kind in (0, 1):
            vals = ['red', 'green', 'blue', 'x'][:2 + ch.draw(3)]
            base = ch.pick(['Enum', 'Enum', 'StrEnum', 'str, Enum'])
        elif kind == 2:
            vals = [1, 2, 30][:2 + ch.draw(2)]
            base = ch.pick(['Enum', 'IntEnum', 'int, Enum'])
        elif kind == 3:
            vals, hint = [(1, 2), (3, 4)], 'Tuple[int, int]'
        else:
            vals = ['q', 5, 'w']
        e = EnumT(self.fresh('E'), [('M%d' % i, v) for i, v in enumerate(vals)], hint, base)
        self.enums.append(e)
        self.s.defs.append(e)
        return e

    def literal(self):
        ch = self.ch
        pool = ch.pick([['a', 'b', 'c'], [1, 2, 3], ['x', 7, 'y'], ['on', True], [None, 'n'], ['one']])
        return LitT(pool[:1 + ch.draw(len(pool))])

    def hashable_type(self, d, key=False):
        ch = self.ch
        for _ in range(6):
            k = ch.draw(8)
            if k <= 1:
                t = Basic('str')
            elif k == 2:
                t = Basic(ch.pick(['int', 'float']))
            elif k == 3:
                t = self.strc()
            elif k == 4:
                t = self.enum()
            elif k == 5:
                t = self.literal()
            elif k == 6:
                t = Tup([self.hashable_type(0, key) for _ in range(1 + ch.draw(2))], ch.flag(50)) if d > 0 else Basic('str')
            else:
                hs = [c for c in self.objs if c.hashable()] if not key else []
                t = Obj(ch.pick(hs)) if hs else Basic('int')
            if not t.hashable:
                continue
            if not key or t.key_ok(self.cfg):
                return t
        return Basic('str')

    # --- anything

    def type(self, d):
        ch = self.ch
        if d <= 0:
            return ch.weighted([(6, self.basic), (2, self.strc), (2, self.enum), (1, self.literal)])()
        k = ch.weighted([(5, 'basic'), (2, 'strc'), (2, 'enum'), (1, 'literal'), (14 if self.lists else 4, 'seq'), (2, 'tup'), (3, 'dict'),
                         (5, 'obj'), (5, 'union'), (1, 'newtype'), (1, 'any')])
        if k == 'basic':
            return self.basic()
        if k == 'strc':
            return self.strc()
        if k == 'enum':
            return self.enum()
        if k == 'literal':
            return self.literal()
        if k == 'seq':
            kind = ch.weighted([(5, 'list'), (2, 'set'), (1, 'frozenset'), (2, 'tuple')])
            t = self.hashable_type(d - 1) if kind in ('set', 'frozenset') else self.type(d - 1)
            return Seq(kind, t, ch.flag(50))
        if k == 'tup':
            return Tup([self.type(d - 1) for _ in range(ch.weighted([(3, 2), (1, 1), (1, 3)]))], ch.flag(50))
        if k == 'dict':
            return Dct(self.hashable_type(1, key=True), self.type(d - 1), ch.flag(50))
        if k == 'obj':
            if self.objs:
                return Obj(ch.pick(self.objs))
            return self.basic()
        if k == 'union':
            if self.unions == 'optional':
                t = self.type(d - 1)
                return t if t.deref().cat is None or isinstance(t.deref(), Uni) else Uni([t, Basic('none')], ch.pick(['Optional', 'pipe']))
            return self.union(d) if self.unions else self.basic()
        if k == 'newtype':
            if self.newts and ch.flag(50):
                return ch.pick(self.newts)
            t = self.type(d - 1)
            if isinstance(t, NewT) and ch.flag(40) or list(t.refs()):
                return t
            n = NewT(self.fresh('N'), t)
            self.newts.append(n)
            self.s.defs.append(n)
            if ch.flag(20):
                # A NewType of a NewType
                n = NewT(self.fresh('N'), n)
                self.newts.append(n)
                self.s.defs.append(n)
            return n
        if k == 'any' and self.allow_any:
            return AnyT()
        return self.basic()

    def union(self, d):
        ch = self.ch
        if self.hooks and ch.flag(30):
            return self.pair()
        ms = []
        basics = ch.subset(['int', 'float', 'str', 'bool'], 35)
        form = ch.draw(6)
        if self.lists and ch.flag(60):
            form = 2
        if form == 0 and not basics:
            basics = ['int']
        if form in (1, 5) and self.objs:
            ms.append(Obj(ch.pick(self.objs)))
        if form == 2:
            ms.append(Seq(ch.pick(['list', 'tuple']), self.type(min(d - 1, 1)), ch.flag(50)))
        if form in (3, 5) and not any(m.cat == 'listy' for m in ms) and 'str' not in basics:
            # time(*{}) is midnight: keep it apart from objects
            t = self.strc(exclude=('timedelta', 'time') if ms else ('timedelta',))
            ms.append(t)
        if form == 4 and not basics:
            ms.append(Dct(Basic('str'), self.type(min(d - 1, 1)), ch.flag(50)))
        if form == 3 and ch.flag(30) and not basics and not ms:
            ms.append(self.enum())
        # a list-like with string-like members: strings are iterable
        bs = [Basic(b) for b in basics]
        if self.cfg.more and ch.flag(25):
            bs.insert(ch.draw(len(bs) + 1), Basic(ch.pick([t.__name__ for t in self.cfg.more])))
        none = ch.flag(55) or len(ms) + len(bs) < 2
        allm = ms + bs
        if not allm:
            allm = [self.basic()]
            none = True
        if len(allm) > 1 and ch.flag(50):
            allm = ch.shuffled(allm)
        if none:
            allm = allm + [Basic('none')]
        style = ch.pick(['Optional', 'Union', 'pipe'])
        if len(allm) == 1:
            return allm[0]
        if style == 'pipe' and (isinstance(allm[0], Basic) and isinstance(allm[1], Basic) and allm[0].name == 'none'):
            style = 'Union'
        return Uni(allm, style)

    def tagged(self, n=None):
        """A union of objects told apart by a Literal tag; returns (union type, tag name)."""
        ch = self.ch
        n = n or ch.weighted([(4, 2), (4, 3), (4, 4), (1, 5), (1, 7)])
        tag = ch.pick(['type', 'kind'])
        others = ch.subset(['ver', 'op'], 30)
        members = []
        values = ch.shuffled(['msg', 'join', 'part', 'quit', 'ping', 5, 6])[:n]
        for i in range(n):
            c = Cls(self.fresh('C'), ch.pick(self.kinds), '')
            c.style = self.style(c.kind).replace('nontotal', '')
            c.fields.append(Field(tag, LitT([values[i]])))
            for o in others:
                c.fields.append(Field(o, LitT(ch.pick([[1], [1, 2], ['r'], ['r', 's']]))))
            self.add_fields(c, 1 + ch.draw(2), 1, no_default_order=False)
            if self.hooks:
                self.add_hooks(c)
            members.append(c)
            self.s.defs.append(c)
        return Uni([Obj(c) for c in members], ch.pick(['Union', 'pipe'])), tag

    def tagged_members(self, n=None):
        """Objects told apart by a Literal field under a common name. Returns (members, tag, {class name: values of the tag})."""
        ch = self.ch
        n = n or ch.weighted([(4, 2), (4, 3), (2, 4), (1, 6)])
        tag = ch.pick(['type', 'kind', 'm', 'zz_tag', 'f0'])
        values = ch.shuffled(['msg', 'join', 'part', 'quit', 'ping', '', 'é', '5', 5, 6, 0, 100, -1, 'Msg', None] + list('ABCDEFG'))
        others = [o for o in ch.subset(['a', 'op', 'ver', 'zzz'], 30)]
        own = {}
        members = []
        bases = []
        for i in range(n):
            c = Cls(self.fresh('C'), ch.pick(self.kinds), '')
            c.style = self.style(c.kind).replace('nontotal', '')
            mine = [values.pop() for _ in range(ch.weighted([(5, 1), (2, 2), (1, 3)]))]
            own[c.name] = mine
            fs = [Field(tag, LitT(mine))]
            for o in others:
                if ch.flag(85):
                    fs.append(Field(o, LitT(ch.pick([[1], [1, 2], ['r'], ['r', 's'], [2, 'r', 7], mine]))))
            if len(fs) > 1 and ch.flag(50):
                fs = ch.shuffled(fs)
            same = [b for b in bases if b.kind == c.kind and b.style == c.style]
            if same and self.inherit and c.kind in ('dc', 'attrs') and ch.flag(40):
                # redefines the tag of another member
                c.base = ch.pick(same)
                redefined = {f.name: f for f in fs}
                inherited = [f for f in c.base.fields if f.name not in redefined]
                if any(f.default is not None for f in inherited) and 'kw_only' not in c.style:
                    c.base = None
            if c.base is not None:
                c.redefined = [f for f in fs]
                c.fields = [redefined.pop(f.name, f) for f in c.base.fields] + list(redefined.values())
                members.append(c)
                self.s.defs.append(c)
                continue
            c.fields.extend(fs)
            self.add_fields(c, ch.draw(4), 1, no_default_order=False)
            if c.kind in ('dc', 'attrs') and self.mangles and ch.flag(12):
                f = ch.pick(c.fields)
                if f.name != tag:
                    f.mangle = {'name': f.name + '-x'}
            bases.append(c)
            members.append(c)
            self.s.defs.append(c)
        return members, tag, own

    def wild_union(self):
        """Any types together: what a document is loaded as is not known by construction."""
        ch = self.ch
        ts = []
        for _ in range(2 + ch.draw(3)):
            t = Obj(ch.pick(self.objs)) if self.objs and ch.flag(45) else self.type(1)
            if not list(t.refs()):
                ts.append(t)
        if len(ts) < 2:
            ts += [self.basic(), Basic('none')]
        if ch.flag(25):
            # takes most of the strings
            ts.insert(ch.draw(len(ts) + 1), Strc('Pattern', None))
        return Uni(ts, 'Union')

    def lookalikes(self):
        """Objects with the same keys, of other types: a document of the last is only found not to be one of the first after part of it was loaded."""
        ch = self.ch
        n = ch.rng_int(1, 3)
        names = ['f%d' % i for i in range(n)]
        if ch.flag(30):
            names = ch.shuffled(names)
        ts = [self.type(1) for _ in names]
        ts = [t if not list(t.refs()) else self.basic() for t in ts]
        ms = []
        for i in range(ch.weighted([(4, 2), (3, 3)])):
            c = Cls(self.fresh('C'), ch.pick(self.kinds), '')
            c.style = self.style(c.kind).replace('functional', '').replace('nontotal', '').strip()
            one = ch.draw(n)
            for k, name in enumerate(names):
                t = ts[k]
                if k == one:
                    t = self.type(1)
                    if list(t.refs()):
                        t = self.strc()
                f = Field(name, t)
                if c.kind == 'td':
                    f.optional = ch.flag(15)
                elif ch.flag(15):
                    self.force_default(c, f)
                c.fields.append(f)
            if c.kind != 'td':
                c.fields.sort(key=lambda f: f.default is not None)
            if self.hooks:
                self.add_hooks(c)
            self.s.defs.append(c)
            ms.append(Obj(c))
        if ch.flag(25):
            ms.insert(ch.draw(len(ms) + 1), Dct(Basic('str'), self.basic(), False))
        if ch.flag(25):
            ms.insert(ch.draw(len(ms) + 1), Basic('none'))
        u = Uni(ms, 'Union')
        return u

    def wild_enum(self):
        ch = self.ch
        kinds = [ch.pick(['dc', 'dc', 'attrs', 'nt']) for _ in range(2 + ch.draw(5))]
        docs = [{'a': i} if ch.flag(70) else {'a': i, 'b': 1} for i in range(1 + ch.draw(3))]
        hints, values = [], []
        for h in ch.shuffled(list(range(len(kinds)))):
            for d in docs:
                if ch.flag(80) or not hints:
                    hints.append(h)
                    values.append(d)
        e = WildEnum(self.fresh('E'), kinds, hints, values)
        self.s.defs.append(e)
        return e

    def ambiguous_union(self):
        """Objects with some Literal fields, which tell some of them apart, or not."""
        ch = self.ch
        tags = ch.shuffled(['type', 'kind', 'op', 'ver', 'aa'])[:1 + ch.draw(4)]
        ms = []
        for i in range(ch.weighted([(4, 2), (4, 3), (4, 4), (1, 6)])):
            c = Cls(self.fresh('C'), ch.pick(self.kinds), '')
            c.style = self.style(c.kind)
            for t in ch.shuffled(tags):
                if not ch.flag(15):
                    vs = ch.subset([0, 1, 2, 'a', 'b'], 25) or [ch.pick([0, 1, 2, 3, 'a', 'b', 'c'])]
                    c.fields.append(Field(t, LitT(vs)))
            self.add_fields(c, ch.draw(2), 1, no_default_order=False)
            if not c.fields:
                c.fields.append(Field('f0', Basic('int')))
            for f in c.fields:
                f.optional = f.optional or 'nontotal' in c.style
            if self.hooks:
                self.add_hooks(c)
            ms.append(c)
            self.s.defs.append(c)
        return Uni([Obj(c) for c in ms], 'Union')

    def style(self, kind):
        ch = self.ch
        if kind == 'dc':
            return ' '.join(ch.subset(['frozen', 'slots', 'kw_only'], 20))
        if kind == 'attrs':
            return ch.pick(['auto_attribs', '', 'define', 'define frozen', 'auto_attribs slots', 'auto_attribs frozen', 'auto_attribs kw_only'])
        if kind == 'td':
            return ch.pick(['', '', 'nontotal', 'functional', 'functional nontotal'])
        return ''

    def add_fields(self, c, n, d, no_default_order=True, recursive=False):
        ch = self.ch
        start = len(c.fields)
        new = []
        for i in range(n):
            name = 'f%d' % (start + i) if not self.unique_names else 'q%d_%s_' % (start + i, c.name)
            if 'functional' in c.style:
                name = ch.pick(['%s', '%s', '%s-x', 'class %s', '%s.é', ' %s', '[%s]']) % name
            t = None
            if recursive and i == n - 1:
                form = ch.draw(4)
                me = Obj(c, forward=True)
                t = [lambda: Uni([me, Basic('none')], 'Optional'), lambda: Seq('list', me, False),
                     lambda: Dct(Basic('str'), me, False), lambda: Uni([Seq('list', me, False), Basic('int'), Basic('none')], 'Union')][form]()
            if t is None:
                t = self.type(d)
            f = Field(name, t)
            self.field_options(c, f)
            new.append(f)
        if c.kind in ('nt', 'dc', 'attrs'):
            new.sort(key=lambda f: f.default is not None)
            # a required field cannot follow one with a default
            if any(f.default is not None for f in c.fields) and 'kw_only' not in c.style:
                for f in new:
                    if f.default is None:
                        self.force_default(c, f)
                new = [f for f in new if f.default is not None]
        if c.kind in ('dc', 'attrs') and self.mangles and len(new) > 1 and ch.flag(12):
            # every name is the name of another field
            for f, g in zip(new, new[1:] + new[:1]):
                f.mangle = {'name': g.name, 'alt': f.name}
        c.fields.extend(new)
        if self.odd:
            self.odd_fields(c, start)

    def odd_fields(self, c, start):
        ch = self.ch
        if c.kind == 'attrs' and ch.flag(35):
            fs = [f for f in c.fields if isinstance(f.t, (Basic, EnumT))]
            if fs:
                o = ch.pick(fs)
                f = Field('s%d' % len(c.fields), Seq('list', o.t, False), default=('self', '[self.%s]' % o.name))
                if ch.flag(30):
                    f.mangle = {'name': f.name + '-of-self'}
                c.fields.append(f)
        if c.kind == 'attrs' and self.allow_any and ch.flag(20):
            f = Field('v%d' % len(c.fields), AnyT(), default=('lit', None))
            f.convert = ch.pick(['partial(second, 1)', 'attrs.Converter(lambda value: value)', 'Converting()', 'lambda value: value',
                                 'attrs.Converter(lambda value, me: value, takes_self=True)', 'says_only_what_it_gives', 'attrs.converters.pipe(Converting(), says_only_what_it_gives)',
                                 'attrs.converters.optional(says_only_what_it_gives)', 'Converting.untouched'])
            c.fields.append(f)
        if c.kind in ('dc', 'attrs') and ch.flag(30):
            n = 'n%d' % len(c.fields)
            computed = 'frozen' not in c.style and ch.flag(40)
            t, v = ch.pick([('int', '5'), ('str', '"s"'), ('Tuple[int, ...]', '(1, 2)'), ('datetime.date', 'datetime.date(2020, 1, 2)'), ('Optional[int]', 'None')])
            c.noinit.append((n, t, v, ch.pick([None, None, {'name': n + '-no-init'}, {'alt': n + '.alt'}]), computed))

    def field_options(self, c, f):
        ch = self.ch
        if c.kind == 'td':
            f.optional = 'nontotal' in c.style or ch.flag(30)
            return
        if c.kind in ('dc', 'attrs') and self.mangles and ch.flag(30):
            f.mangle = ch.pick([{'name': f.name + '-key'}, {'alt': 'alt.' + f.name}, {'name': f.name + 'Camel', 'alt': f.name + '_alt'},
                                {'name': f.name, 'alt': f.name + '_alt'}])
        if ch.flag(40):
            self.force_default(c, f)

    def force_default(self, c, f):
        ch = self.ch
        t = f.t.deref()
        if isinstance(t, Seq) and t.kind in ('list', 'set') or isinstance(t, Dct):
            if c.kind != 'nt' and self.odd and ch.flag(50):
                av = t.gen(ch, 1)
                if sayable(t, av) and not cross_equal(t):
                    f.default = ('made', av)
                    return
            if c.kind != 'nt':
                f.default = ('factory', t.kind if isinstance(t, Seq) else 'dict')
            return
        if isinstance(t, Uni) and any(m.basic and m.name == 'none' for m in t.ts) and ch.flag(60):
            f.default = ('lit', [[i for i, m in enumerate(t.ts) if m.basic and m.name == 'none'][0], None])
            return
        if isinstance(t, Uni):
            numbers = sum(1 for m in t.ts if m.basic and m.name in ('int', 'float', 'bool'))
            for i, m in enumerate(t.ts):
                # 1, 1.0 and True are equal, and so hidden, when one of them is the default
                if m.basic and (m.name == 'str' or m.name != 'none' and numbers == 1):
                    f.default = ('lit', [i, m.gen(ch, 0)])
                    return
            return
        if isinstance(t, (Basic, EnumT, LitT, Strc, CustT)):
            f.default = ('lit', f.t.gen(ch, 0))
        elif isinstance(t, Tup) or (isinstance(t, Seq) and t.kind in ('tuple', 'frozenset')):
            if t.hashable:
                av = f.t.gen(ch, 1)
                if sayable(t, av) and not cross_equal(t):
                    f.default = ('lit', av)

    def cls(self, d, recursive=False):
        ch = self.ch
        kind = ch.pick(self.kinds)
        c = Cls(self.fresh('C'), kind, '')
        c.style = self.style(kind)
        if self.inherit and kind in ('dc', 'td', 'attrs') and 'functional' not in c.style and ch.flag(20):
            bases = [b for b in self.objs if b.kind == kind and (kind == 'td' or b.style == c.style) and b.base is None
                     and not any(list(f.t.refs()) for f in b.fields)]
            if bases:
                c.base = ch.pick(bases)
                c.fields = list(c.base.fields)
        n = ch.weighted([(4, 2), (3, 1), (4, 3), (1, 5), (1, 0)])
        if recursive:
            n = max(n, 1)
        self.add_fields(c, n, d, recursive=recursive)
        if recursive and not any(list(f.t.refs()) for f in c.fields):
            recursive = False
        if self.hooks:
            self.add_hooks(c)
        self.s.defs.append(c)
        self.objs.append(c)
        return c

    def add_hooks(self, c):
        ch = self.ch
        for f in c.own_fields():
            if f.default is not None and f.default[0] == 'factory' and c.kind in ('dc', 'attrs') and ch.flag(50):
                f.factory = 'make_' + f.default[1]
        if c.kind == 'dc' and ch.flag(60):
            c.extra_src = 'def __post_init__(self):\n    HOOK("%s.__post_init__")' % c.name
        if c.kind == 'attrs':
            if ch.flag(40):
                c.extra_src = 'def __attrs_post_init__(self):\n    HOOK("%s.__attrs_post_init__")' % c.name
            for f in c.own_fields():
                if ch.flag(35):
                    f.validator = 'VALIDATOR'
                if ch.flag(35) and not list(f.t.refs()):
                    f.converter = 'convert_%s_%s' % (c.name, f.name)
            for f in c.own_fields():
                if f.converter and ch.flag(40):
                    # many classes have one of this name
                    f.converter = 'convert'
                    break

    def schema(self, nclasses=None, nroots=None, depth=2):
        ch = self.ch
        if nclasses is None:
            nclasses = ch.weighted([(3, 1), (4, 2), (4, 3), (2, 4), (1, 0)])
        for i in range(nclasses):
            self.cls(depth - 1 if i else 1, recursive=self.recursive and ch.flag(self.recursive_p))
        if nroots is None:
            nroots = 1 + ch.draw(3)
        for _ in range(nroots):
            k = ch.draw(10)
            if self.lists and ch.flag(40):
                k = 9
            if k <= 3 and self.objs:
                self.s.roots.append(Obj(ch.pick(self.objs)))
            elif k == 4 and self.objs:
                self.s.roots.append(Seq('list', Obj(ch.pick(self.objs)), ch.flag(50)))
            elif k == 5:
                self.s.roots.append(self.tagged()[0])
            else:
                self.s.roots.append(self.type(depth))
        return self.s


def cross_equal(t):
    """May values of this type be equal to values of another type it also has, as 1 and True?"""
    t = t.deref()
    if isinstance(t, Uni):
        return sum(1 for m in t.ts if m.basic and m.name in ('int', 'float', 'bool')) > 1 or any(cross_equal(m) for m in t.ts)
    if isinstance(t, Tup):
        return any(cross_equal(m) for m in t.ts)
    if isinstance(t, Seq):
        return cross_equal(t.t)
    if isinstance(t, Dct):
        return cross_equal(t.k) or cross_equal(t.v)
    return False


def sayable(t, av):
    """Can default_expr() say the whole of it?"""
    t = t.deref()
    if isinstance(t, (Basic, EnumT, LitT, Strc, CustT)):
        return True
    if isinstance(t, Uni):
        return sayable(t.ts[av[0]], av[1])
    if isinstance(t, Seq):
        return all(sayable(t.t, a) for a in av)
    if isinstance(t, Dct):
        return all(sayable(t.k, k) and sayable(t.v, v) for k, v in av)
    if isinstance(t, Tup):
        return all(sayable(x, a) for x, a in zip(t.ts, av))
    return False


# ---------------------------------------------------------------- damage

def paths(doc, prefix=()):
    """All positions in a document."""
    yield prefix
    if isinstance(doc, dict):
        for k in list(doc):
            yield from paths(doc[k], prefix + (k,))
    elif isinstance(doc, (list, tuple)):
        for i in range(len(doc)):
            yield from paths(doc[i], prefix + (i,))


def get(doc, path):
    for p in path:
        doc = doc[p]
    return doc


def put(doc, path, value):
    """A copy of doc with value at path; lists, tuples and dicts on the way are copied."""
    if not path:
        return value
    h, rest = path[0], path[1:]
    if isinstance(doc, tuple):
        l = list(doc)
        l[h] = put(l[h], rest, value)
        return tuple(l)
    c = doc.copy()
    c[h] = put(c[h], rest, value)
    return c


def damage(doc, ch, wild=True):
    """One corruption at a drawn position. Returns (kind, document)."""
    ps = list(paths(doc))
    p = ps[ch.draw(len(ps))]
    v = get(doc, p)
    kinds = ['retype', 'null', 'swap']
    if isinstance(v, dict):
        kinds += ['dropkey', 'dropkey', 'addkey', 'renamekey', 'tolist', 'unhashable'] if v else ['addkey']
    elif isinstance(v, (list, tuple)):
        kinds += ['truncate', 'duplicate', 'grow', 'wrap', 'todict']
    else:
        kinds += ['blowup', 'flip', 'wrap', 'unhashable', 'stringify']
    k = ch.pick(kinds)
    if k == 'retype':
        n = gen_json(ch, 2, wild)
    elif k == 'null':
        n = None
    elif k == 'swap':
        n = _copy(get(doc, ps[ch.draw(len(ps))]))
    elif k == 'dropkey':
        n = dict(v)
        n.pop(list(v)[ch.draw(len(v))])
    elif k == 'addkey':
        n = dict(v)
        n[ch.pick(['zz', 'f0', 'f1', 'f2', 'f9', 'type', 'name'] + ([3, None, (1, 2)] if wild is True else []))] = gen_json(ch, 1, wild)
    elif k == 'renamekey':
        n = dict(v)
        key = list(v)[ch.draw(len(v))]
        x = n.pop(key)
        n[ch.pick(['zz', 'F0', str(key) + ' ', str(key).upper()])] = x
    elif k == 'tolist':
        n = [list(v), list(v.values())][ch.draw(2)]
    elif k == 'todict':
        n = {str(i): x for i, x in enumerate(v)}
    elif k == 'unhashable':
        n = {'f0': [], 'type': ch.pick([[], {}, [1]]), 'kind': [2]}
        if isinstance(v, dict):
            n = dict(v)
            n[list(v)[ch.draw(len(v))]] = ch.pick([[], {}, [[]]])
    elif k == 'truncate':
        n = v[:ch.draw(len(v))] if v else v
    elif k == 'duplicate':
        n = list(v) + list(v)
    elif k == 'grow':
        n = list(v) + [gen_json(ch, 1, wild)]
    elif k == 'wrap':
        n = [v]
    elif k == 'stringify':
        n = str(v)
    elif k == 'blowup':
        n = ch.pick([10 ** 30, -10 ** 30, 1e300, -1, 0, 2 ** 63, 10 ** 20, 1e18, 'a{99999999999999999999}', '(' * 150, 'x' * 300] + ([float('nan'), float('inf')] if wild else []))
    else:
        # flip a character
        s = list(str(v)) or ['q']
        i = ch.draw(len(s))
        s[i] = chr((ord(s[i]) ^ (1 << ch.draw(7))) & 0x7f)
        n = ''.join(s)
    return k, put(doc, p, n)
