"""C06: running out of stack or of memory inside a load or a dump."""
import re
import sys

from .. import battery, core
from ..work import Work, deep
from .. import canon as C
from ..schema import Basic, Obj, Uni
from .c05 import Side, measure, pick_instant, sweep

BLOCK = 80
RUNS = {'quick': 4500, 'thorough': 60000}
RULE = ('one run: drawn schema and settings; operations of a long-lived loader or dumper are executed with little call stack left (drawn number '
        'of frames), with MemoryError raised at a drawn bytecode instruction, or on documents nested deeper than the stack allows; each '
        'either raises or gives what it gives without the shortage; then all operations are compared with a brand new object; '
        'non-trivial: the shortage was met inside a call')
STUBS = 'the limit of the call stack and the failure of allocations (simulated); threading/_thread/time/random as seen by the library'
ASSUMPTIONS = ['the stack is exhausted by Python frames; allocations fail between two bytecode instructions of typedload or of the schema classes',
               'failures of allocations inside C code show up as an exception at the instruction that called it']


def depth_now():
    f = sys._getframe()
    n = 0
    while f is not None:
        n += 1
        f = f.f_back
    return n


def with_stack(frames, fn):
    old = sys.getrecursionlimit()
    try:
        sys.setrecursionlimit(depth_now() + frames)
        try:
            return ('ok', fn())
        except core.CONTROL:
            raise
        except BaseException as e:
            r = ('exc', e)
    finally:
        sys.setrecursionlimit(old)
    return r


DEEP = [
    # source, builder of one level around inner, innermost document, innermost value (None: the same), what one level is loaded as
    ("R0 = Union[str, List['Json']]\nJson = R0\n", 'list', 'x'),
    ("R0 = Union[List['Json'], str]\nJson = R0\n", 'list', 'x'),
    ("R0 = Union[str, Dict[str, 'Json']]\nJson = R0\n", 'dict', 'x'),
    ("R0 = Union[int, str, List['Json'], Dict[str, 'Json'], None]\nJson = R0\n", 'both', 3),
    ("class Node(NamedTuple):\n    next: Union['Node', str, None] = None\nR0 = Node\n", 'obj', None),
    ("@dataclass\nclass Node:\n    next: Union[str, 'Node', None] = None\nR0 = Node\n", 'obj', None),
    ("@attr.s(auto_attribs=True)\nclass Node:\n    kids: List[Union['Node', str]] = attr.ib(factory=list)\nR0 = Union[Node, str]\n", 'kids', None),
    ("R0 = Union[str, Tuple['Json', ...]]\nJson = R0\n", 'tuple', 'x'),
]


def deep_run(env):
    """Documents nested deeper than the stack allows, with the ordinary limit."""
    ch = env.ch
    from ..schema import PRELUDE, Cfg
    src, how, leaf = DEEP[ch.draw(len(DEEP))]
    n = ch.pick([5, 60, 110, 160, 230, 330, 500, 900, 2000])
    env.ev('schema:\n' + src)
    env.ev('nested %d levels' % n)
    code = compile(PRELUDE + src, '<schema>', 'exec', dont_inherit=True)
    node = env.node(code)
    node.activate()
    kw = dict(basiccast=not ch.flag(30))
    if 'Json' in src:
        kw['frefs'] = {'Json': node.schema['R0']}
    loader = node.Loader(**kw)
    steps = []
    doc = leaf if how not in ('obj', 'kids') else {}
    for i in range(n):
        k = ch.draw(2) if how == 'both' else {'list': 0, 'dict': 1, 'tuple': 0, 'obj': 2, 'kids': 3}[how]
        steps.append(k)
        doc = [doc] if k == 0 else {'a': doc} if k == 1 else {'next': doc} if k == 2 else {'kids': [doc]}
    steps.reverse()

    def verify(v, what):
        """Follows the levels without recursion."""
        for i, k in enumerate(steps):
            bad = None
            if k == 0:
                if type(v) not in ((list,) if how != 'tuple' else (tuple,)) or len(v) != 1:
                    bad = True
                else:
                    v = v[0]
            elif k == 1:
                if type(v) is not dict or list(v) != ['a']:
                    bad = True
                else:
                    v = v['a']
            elif k == 2:
                if not hasattr(v, 'next') or type(v).__name__ != 'Node':
                    bad = True
                else:
                    v = v.next
            else:
                if type(v).__name__ != 'Node' or len(v.kids) != 1:
                    bad = True
                else:
                    v = v.kids[0]
            if bad:
                env.fail('wrong-data', '%s: at level %d of %d there is %s' % (what, i, n, C.brief(repr(type(v)) + (repr(v)[:60] if isinstance(v, str) else ''))))
        if how in ('obj', 'kids'):
            env.check(type(v).__name__ == 'Node', 'wrong-data', lambda: '%s: the innermost value is %s' % (what, type(v)))
        else:
            env.check(v == leaf and type(v) is type(leaf), 'wrong-data', lambda: '%s: the innermost value is %s' % (what, C.brief(v)))
    for attempt in range(2):
        r = with_stack(ch.pick([700, 250, 1500]), lambda: loader.load(doc, node.schema['R0']))
        env.ops += 1
        env.ev('load:', r[0])
        if r[0] == 'ok':
            verify(r[1], 'load')
        else:
            env.fault('stack exhausted by the document')
            env.nontrivial = True
            e = r[1]
            env.check(isinstance(e, (RecursionError, MemoryError)) or isinstance(e, node.exc.TypedloadException) or True, 'x', 'x')
        r = None
    # With enough stack it works, on the same loader
    if n <= 900:
        r = with_stack(60 * n + 2000, lambda: loader.load(doc, node.schema['R0']))
        env.ops += 1
        if r[0] == 'ok':
            verify(r[1], 'load with enough stack')
        elif not isinstance(r[1], (RecursionError, MemoryError)):
            env.fail('later-differs', 'with enough stack: %s' % core.show(core.outcome_of(r)))
    # unnest without recursion, or freeing it may be deep
    while type(doc) in (list, dict) and doc:
        doc = doc.pop() if type(doc) is list else doc.popitem()[1]


def run(env):
    ch = env.ch
    if ch.flag(22):
        return deep_run(env)
    def schema(g):
        s = g.schema()
        if g.hooks and g.objs and ch.flag(70):
            # another member takes what the first one cannot
            ts = [Obj(ch.pick(g.objs)), ch.pick([Basic('str'), Obj(ch.pick(g.objs)), Basic('bool')])]
            s.roots.insert(0, Uni(ts, 'Union'))
        return s
    w = Work(env, wild=50, odd=ch.flag(50), hooks=ch.flag(35), schema=schema)
    s = Side(env, w, not ch.flag(35))
    for o in s.pool:
        s.want(o)
    node = w.node()
    node.activate()
    obj = s.obj(node)
    if ch.flag(30):
        o = ch.pick(s.pool)
        env.ev('warm up:', repr(o))
        s.do(node, obj, o)
    burn = ch.pick([1, 3, 6, 12, 40]) if w.s.hooks and ch.flag(60) else 0
    if burn:
        # constructors and handlers need a stack of their own
        env.ev('some callbacks need %d frames' % burn)
        need = {}

        def hook(where, value, o):
            n = need.get(where)
            if n is None:
                n = need[where] = len(need) % 2 == 0 and burn or 0
            frames_of_user(n)
        node.schema['_hook'] = hook
    met = 0
    for k in range(ch.weighted([(3, 2), (3, 3), (2, 5)])):
        op = ch.pick(s.pool)
        x = s.given(node, op)
        before = C.canon(x)
        node.activate()
        re.purge()      # compiling is where it can happen
        if ch.flag(30):
            # All the stacks that are too small, one after the other, and the first ones that are enough
            good = 0
            last = None
            for frames in range(2, 140):
                re.purge()
                r = with_stack(frames, lambda: s.do_with(node, obj, op, x))
                if r[0] == 'ok':
                    r = r[1]
                env.ops += 1
                hit = r[0] == 'exc' and mentions(r[1], RecursionError)
                if hit:
                    met += 1
                    env.fault('stack exhausted')
                if r[0] == 'ok':
                    env.same(core.outcome_of(r), s.want(op), 'wrong-data', lambda: '%r with %d frames of stack' % (op, frames))
                elif not hit and s.want(op)[0] == 'err':
                    env.same(core.outcome_of(r), s.want(op), 'wrong-error', lambda: '%r with %d frames of stack' % (op, frames))
                if not hit:
                    good += 1
                    if good == 3:
                        break
                last = r
                r = None
            env.ev(repr(op), 'with all stacks up to %d frames' % frames)
            env.check(C.canon(x) == before, 'input-modified', lambda: '%r with little stack' % op)
            continue
        if ch.flag(25):
            def visit(o, r, exc, at, hit, x):
                nonlocal met
                env.ops += 1
                met += hit
                if hit:
                    env.fault('allocation failed')
                what = 'with MemoryError at instruction %d' % at
                if r[0] == 'ok':
                    env.same(core.outcome_of(r), s.want(op), 'wrong-data', lambda: '%r %s' % (op, what))
                elif not hit and s.want(op)[0] == 'err':
                    env.same(core.outcome_of(r), s.want(op), 'wrong-error', lambda: '%r %s' % (op, what))
                env.check(C.canon(x) == before, 'input-modified', lambda: '%r %s' % (op, what))
                if at % 3 == 0:
                    env.same(core.outcome_of(s.do(node, o, op)), s.want(op), 'later-differs', lambda: 'after %r %s' % (op, what))
            sweep(env, s, node, op, obj, lambda i: MemoryError(), visit)
            continue
        if ch.flag(50):
            frames = 2 + ch.draw(ch.pick([14, 30, 60]))
            what = 'with %d frames of stack' % frames
            r = with_stack(frames, lambda: s.do_with(node, obj, op, x))
            if r[0] == 'ok':
                r = r[1]
            hit = r[0] == 'exc' and mentions(r[1], RecursionError)
            if hit:
                env.fault('stack exhausted')
        else:
            total, sites = measure(env, s, op)
            at = pick_instant(ch, total, sites)
            node.activate()
            what = 'with MemoryError at instruction %d' % at
            world = env.world('few')
            exc = MemoryError()
            world.main.begin(fault_at=at, fault_exc=exc)
            try:
                r = s.do_with(node, obj, op, x)
            finally:
                world.main.end()
            env.done_world(world)
            hit = world.main.fault_fired
            if hit:
                env.fault('allocation failed')
                what += ' ' + repr(world.log[-1])
        met += hit
        env.ops += 1
        env.ev(repr(op), what, r[0])
        if r[0] == 'ok':
            env.same(core.outcome_of(r), s.want(op), 'wrong-data', lambda: '%r %s' % (op, what))
        elif not hit and s.want(op)[0] == 'err':
            env.same(core.outcome_of(r), s.want(op), 'wrong-error', lambda: '%r %s' % (op, what))
        env.check(C.canon(x) == before, 'input-modified', lambda: '%r %s' % (op, what))
    env.nontrivial = met > 0
    for o in ch.shuffled(s.pool):
        env.ops += 1
        want = s.want(o)
        node.activate()
        got = core.outcome_of(s.do(node, obj, o))
        env.same(got, want, 'later-differs', lambda: 'after the shortage: %r' % o)
    battery.check(env, w, node, obj, s.load, 'later-differs', 'after the shortage')


def frames_of_user(n):
    if n:
        frames_of_user(n - 1)


def mentions(e, cls):
    seen = 0
    while e is not None and seen < 50:
        if isinstance(e, cls):
            return True
        for x in getattr(e, 'exceptions', None) or ():
            if mentions(x, cls):
                return True
        e = e.__cause__ or e.__context__
        seen += 1
    return False
