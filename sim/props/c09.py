"""C09: damaged documents."""
import collections
import json
import re

from .. import core
from .. import canon as C
from ..schema import T, _copy, damage, gen_json
from ..work import Work, deep, draw_cfg

BLOCK = 150
RUNS = {'quick': 14000, 'thorough': 200000}
RULE = ('one run: drawn schema and settings, a loader, 8-24 documents of JSON-like values damaged 1-4 times at drawn places (also as text: bytes '
        'changed, lost, inserted, repeated, as long as it still is JSON), or made of random data; each gives a value that conforms to the type at '
        'every depth or a TypedloadException that can be printed; non-trivial: some were refused and some accepted')
STUBS = 'none; the corruption of documents is the simulated environment'
ASSUMPTIONS = ['documents are what json.loads() can return; integers have less than 4300 digits; nesting does not exhaust the stack']


def damage_text(doc, ch):
    """Damages the JSON text so that it still is JSON. Returns (kind, document)."""
    text = json.dumps(doc)
    for _ in range(12):
        t = list(text)
        for _ in range(1 + ch.draw(3)):
            if not t:
                break
            i = ch.draw(len(t))
            k = ch.draw(5)
            if k == 0:
                t[i] = chr((ord(t[i]) ^ (1 << ch.draw(7))) & 0x7f)
            elif k == 1:
                del t[i:i + 1 + ch.draw(4)]
            elif k == 2:
                t.insert(i, ch.pick(list('0123456789-.e"{}[]:,nulltrue ')))
            elif k == 3:
                n = 1 + ch.draw(12)
                t[i:i] = t[i:i + n]
            else:
                del t[i:]
                t.extend(ch.pick(['', ']', '}', '"', '"}', '}}', ']}']))
        try:
            r = json.loads(''.join(t))
        except (ValueError, RecursionError):
            continue
        return 'text', r
    return 'no damage', doc


class Members(dict):
    """What an object_pairs_hook may give"""


def with_hook(x, cls):
    """The document, as json.loads() with an object_pairs_hook gives it"""
    if isinstance(x, dict):
        return cls((k, with_hook(v, cls)) for k, v in x.items())
    if isinstance(x, list):
        return [with_hook(i, cls) for i in x]
    return x


def jsonable(doc):
    try:
        json.dumps(doc)
        return True
    except (TypeError, ValueError):
        return False


def ints(v):
    return all(isinstance(i, int) for i in v)


def bytespattern(v):
    return isinstance(v, re.Pattern) and type(v.pattern) is bytes


ODD = [
    # type, documents that make sense, conforms
    ('Set[Any]', [[1, 'a'], [None], [[1]], [{}], [1, 1.0, True]], lambda v: type(v) is set),
    ('FrozenSet[Any]', [[1, 'a'], [], [[1]]], lambda v: type(v) is frozenset),
    ('Dict[Any, int]', [{'a': 1}, {}], lambda v: type(v) is dict and ints(v.values())),
    ('Set[List[int]]', [[], [[1]], [[], [1, 2]]], lambda v: v == set()),
    ('Set[Dict[str, int]]', [[], [{'a': 1}], [{}]], lambda v: v == set()),
    ('FrozenSet[Set[int]]', [[], [[1]]], lambda v: v == frozenset()),
    ('Tuple[()]', [[], [1], [1, 2]], lambda v: v == () and type(v) is tuple),
    ('tuple[()]', [[], [1]], lambda v: v == () and type(v) is tuple),
    ('Tuple[Any, ...]', [[1, 'a'], []], lambda v: type(v) is tuple),
    ('Tuple[Any, int]', [[1, 2], [[], 3]], lambda v: type(v) is tuple and len(v) == 2 and isinstance(v[1], int)),
    ('Optional[Any]', [None, 1, {}], lambda v: True),
    ('Union[Any, int]', [None, 1, {}], lambda v: True),
    ('Dict[List[int], int]', [{}, {'12': 1}, {'a': 1}], lambda v: v == {}),
    ('Dict[Tuple[int, ...], str]', [{}, {'12': 'x'}, {'': 'x'}], lambda v: type(v) is dict and all(type(k) is tuple and ints(k) and type(x) is str for k, x in v.items())),
    ('Dict[FrozenSet[int], str]', [{}, {'12': 'x'}], lambda v: type(v) is dict and all(type(k) is frozenset and ints(k) and type(x) is str for k, x in v.items())),
    ('Dict[Set[int], str]', [{}, {'12': 'x'}], lambda v: v == {}),
    ('re.Pattern[bytes]', ['a', '', 'a+'], bytespattern),
    ('Pattern[bytes]', ['a', '', 'a+'], bytespattern),
    ('Set[re.Pattern[bytes]]', [[], ['a']], lambda v: type(v) is set and all(map(bytespattern, v))),
    ('Optional[re.Pattern[bytes]]', ['a', None], lambda v: v is None or bytespattern(v)),
    ('Dict[re.Pattern[str], int]', [{'a': 1}, {'(': 1}], lambda v: type(v) is dict and ints(v.values())),
    ('List[None]', [[None], [None, 1]], lambda v: type(v) is list and all(i is None for i in v)),
    ('Dict[None, int]', [{}, {'a': 1}], lambda v: type(v) is dict and not set(v) - {None} and ints(v.values())),
    ('Tuple[None, int]', [[None, 1]], lambda v: type(v) is tuple and len(v) == 2 and v[0] is None and isinstance(v[1], int)),
    ('Set[Union[int, List[int]]]', [[1], [1, [2]], ['a']], lambda v: type(v) is set and ints(v)),
    ('Union[Set[Any], Dict[str, int]]', [[1], [[1]], {'a': 1}, {'a': []}], lambda v: type(v) is set or type(v) is dict and ints(v.values())),
    ('Union[Set[List[int]], List[List[int]]]', [[], [[1]]], lambda v: v == set() or type(v) is list and all(type(i) is list and ints(i) for i in v)),
    ('List[complex]', [[], ['1'], [1]], lambda v: type(v) is list and all(type(i) is complex for i in v)),
    ('Optional[bytes]', [None, 'a'], lambda v: v is None or type(v) is bytes),
    ('Dict[str, bytes]', [{}, {'a': 'a'}], lambda v: type(v) is dict and all(type(i) is bytes for i in v.values())),
    ('Dict[bytes, str]', [{}, {'a': 'a'}], lambda v: type(v) is dict and all(type(i) is bytes for i in v)),
    ('Union[bytes, int]', [1, 'a'], lambda v: isinstance(v, (int, bytes))),
    ('Callable[[int], str]', [1, None, 'print'], lambda v: False),
    ('Type[int]', [1, 'int'], lambda v: False),
    ('Sequence[int]', [[1], []], lambda v: False),
    ('Annotated[int, "x"]', [1], lambda v: isinstance(v, int)),
    ('List["Nowhere"]', [[], [1], [{}]], lambda v: v == []),
    ('Dict["Nowhere", int]', [{}, {'a': 1}], lambda v: v == {}),
    ('Optional["Nowhere"]', [None, {}], lambda v: v is None),
    ('Literal[()]', [None, 1, []], lambda v: False),
    ('Literal["a", 1, None, True]', ['a', 1, None, True, 1.0, []], lambda v: v in ('a', 1, None)),
]


class OddT(T):
    """Types that make little sense for data, or none at all."""
    def __init__(self, ch, cfg):
        # (names that don't exist can't be found in the module either)
        self.base, self.docs, self.ok = ch.pick([o for o in ODD if not (cfg.extra.get('pep563') and 'Nowhere' in o[0])])
        self.around = ch.weighted([(6, None), (2, 'List[%s]'), (2, 'Dict[str, %s]'), (2, 'Optional[%s]'), (1, 'Tuple[int, %s]'), (2, 'dc'), (1, 'td')])

    def src(self):
        if self.around in ('dc', 'td'):
            return 'Odd'
        return self.around % self.base if self.around else self.base

    def define(self):
        return {'dc': '@dataclass\nclass Odd:\n    x: %s\n', 'td': 'class Odd(TypedDict):\n    x: %s\n'}.get(self.around, '#%s\n') % self.base

    def gen(self, ch, d):
        return ch.pick(self.docs), ch.draw(3)

    def doc(self, av, cfg, ch=None):
        x, n = _copy(av[0]), av[1]
        a = self.around
        if a in ('dc', 'td'):
            return {'x': x}
        return x if not a or a[0] == 'O' and n else None if a[0] == 'O' else [x] * n if a[0] == 'L' else {str(i): x for i in range(n)} if a[0] == 'D' else [1, x]

    def conforms(self, v, ns):
        a = self.around
        if a in ('dc', 'td'):
            return type(v) is ns['Odd'] and self.ok(v.x) if a == 'dc' else type(v) is dict and list(v) == ['x'] and self.ok(v['x'])
        if not a:
            return self.ok(v)
        if a[0] == 'O':
            return v is None or self.ok(v)
        if a[0] == 'L':
            return type(v) is list and all(self.ok(i) for i in v)
        if a[0] == 'D':
            return type(v) is dict and all(type(k) is str and self.ok(i) for k, i in v.items())
        return type(v) is tuple and len(v) == 2 and type(v[0]) is int and self.ok(v[1])


def with_keys(doc, ch, depth=0):
    """Some of the dictionaries have keys that are not strings."""
    t = type(doc)
    if t is list:
        return [with_keys(i, ch) for i in doc]
    if t is dict:
        r = {}
        for k, v in doc.items():
            if ch.flag(6):
                k = ch.pick([0, 1, -3, 2.5, None, True, 2 ** 70, float('inf'), b'f0', (1, 'f0')])
            r[k] = with_keys(v, ch)
        if ch.flag(25):
            r[ch.pick([0, 1, -3, 2.5, None, False, 2 ** 70, float('nan'), b'f0', (), '\ud800'])] = gen_json(ch, 1, 'json')
        return r
    return doc


def run(env):
    ch = env.ch
    cfg = draw_cfg(ch, json=True)

    def schema(g):
        s = g.schema()
        if ch.flag(25):
            t = OddT(ch, cfg)
            s.defs.append(t)
            s.roots.append(t)
        return s
    w = Work(env, cfg, schema=schema, wild=35, odd=ch.flag(50), hooks=ch.flag(15))
    node = w.node()
    node.activate()
    loader = w.loader(node)
    odd_keys = ch.flag(20)      # YAML, msgpack and the like
    refused = accepted = 0
    for k in range(ch.rng_int(8, 24)):
        o = w.good_op(k)
        o.doc = json.loads(json.dumps(o.doc))
        if ch.flag(8):
            o.how, o.doc = 'random', gen_json(ch, 4, 'json')
        else:
            hows = []
            for _ in range(ch.weighted([(6, 1), (3, 2), (1, 3), (1, 4)])):
                if ch.flag(12) and jsonable(o.doc):
                    how, o.doc = damage_text(o.doc, ch)
                else:
                    how, o.doc = damage(o.doc, ch, odd_keys or 'json')
                hows.append(how)
                env.kinds[how] += 1
            o.how = '+'.join(hows)
        if odd_keys and ch.flag(60):
            o.doc = with_keys(o.doc, ch)
            env.kinds['keys that are no strings'] += 1
        if ch.flag(10):
            o.doc = with_hook(o.doc, ch.pick([collections.OrderedDict, Members, lambda x: collections.defaultdict(list, x)]))
            env.kinds['object_pairs_hook'] += 1
        env.fault('damaged document')
        r = w.do_load(node, loader, o)
        env.ops += 1
        if r[0] == 'ok':
            accepted += 1
            env.ev(repr(o), '-> accepted')
            env.check(w.roots[o.root].conforms(r[1], node.schema), 'not-conforming',
                      lambda: '%r is loaded as %s, which is not a %s' % (o, core.show(core.outcome_of(r), 1500), w.roots[o.root].src()))
        else:
            refused += 1
            e = r[1]
            env.check(isinstance(e, node.exc.TypedloadException), 'other-exception',
                      lambda: '%r: %s' % (o, core.show(core.outcome_of(r), 1500)))
            try:
                s = str(e)
                repr(e)
            except core.CONTROL:
                raise
            except BaseException as x:
                env.fail('not-printable', '%r: printing the %s gives %r' % (o, type(e).__name__, x))
            env.check(type(s) is str and s, 'not-printable', lambda: '%r: no text' % o)
            env.ev(repr(o), '->', type(e).__name__)
    env.nontrivial = refused > 0 and accepted > 0
