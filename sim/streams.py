"""Input streams and mappings under the control of the simulator: they deliver, stall and fail as decided, and take note of it."""
import collections
import itertools

from .schema import Dct, NewT, Obj, Seq, Tup, Uni
from . import simmods


class SourceFailure(Exception):
    """An exception of no particular family."""


def _unicode():
    return UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'invalid start byte')


MORE = (KeyError, AssertionError, NotImplementedError, ZeroDivisionError, FileNotFoundError, UserWarning, Exception, SystemExit, MemoryError, IndexError, OverflowError,
        BufferError, BrokenPipeError, StopAsyncIteration, NameError)
FAILURES = (OSError, EOFError, ConnectionResetError, _unicode, SourceFailure, TimeoutError, RuntimeError, LookupError, KeyboardInterrupt, AttributeError) + MORE
MAP_FAILURES = (OSError, EOFError, ConnectionResetError, SourceFailure, TimeoutError, RuntimeError, LookupError, KeyboardInterrupt) + MORE


class Tape:
    """What a source delivers, when it fails, and what was asked to it."""
    def __init__(self, items, name):
        self.items = items
        self.name = name
        self.fail_at = None     # number of deliveries after which it fails; -1: when it is opened
        self.exc = None
        self.opened = 0
        self.delivered = 0
        self.ended = 0
        self.fired = False
        self.on_deliver = None

    def fail(self):
        self.fired = True
        e = self.exc()
        if isinstance(e, IndexError) and isinstance(getattr(self, 'source', None), Indexed):
            # which would be the end
            e = SourceFailure()
        self.raised = e
        raise e

    def open(self):
        self.opened += 1
        if self.fail_at == -1:
            self.fail()

    def get(self, i):
        """Delivery number i."""
        if self.fail_at is not None and i == self.fail_at:
            self.fail()
        w = simmods.WORLD
        if w is not None and w.threaded:
            w.yield_now('source')
        if i >= len(self.items):
            self.ended += 1
            return False
        if self.on_deliver is not None:
            self.on_deliver(i)
        self.delivered = max(self.delivered, i + 1)
        return True


def generator(t):
    def g():
        t.open()
        i = 0
        while t.get(i):
            yield t.items[i]
            i += 1
    return g()


class OneShot:
    """An iterator, as files and sockets are."""
    def __init__(self, t):
        self.t = t
        self.i = 0

    def __iter__(self):
        self.t.open()
        return self

    def __next__(self):
        i = self.i
        if not self.t.get(i):
            raise StopIteration
        self.i += 1
        return self.t.items[i]


class Restartable:
    """Starts from the beginning at every iter(), as queries and views do."""
    def __init__(self, t):
        self.t = t

    def __iter__(self):
        self.t.open()
        return _It(self.t)


class _It:
    def __init__(self, t):
        self.t = t
        self.i = 0

    def __iter__(self):
        return self

    def __next__(self):
        i = self.i
        if not self.t.get(i):
            raise StopIteration
        self.i += 1
        return self.t.items[i]


class Sized(Restartable):
    def __len__(self):
        return len(self.t.items)


class Indexed:
    """Only has __getitem__."""
    def __init__(self, t):
        self.t = t

    def __getitem__(self, i):
        if not isinstance(i, int):
            raise TypeError('indices must be integers')
        if i == 0:
            self.t.open()
        if not self.t.get(i):
            raise IndexError(i)
        return self.t.items[i]


class GenMethod:
    """__iter__ is a generator function."""
    def __init__(self, t):
        self.t = t

    def __iter__(self):
        self.t.open()
        i = 0
        while self.t.get(i):
            yield self.t.items[i]
            i += 1


KINDS = (generator, OneShot, Restartable, GenMethod, Indexed, Sized)
# plain iterables, nothing to take note of
PLAIN = (collections.deque, iter, lambda x: map(lambda i: i, x), lambda x: dict(enumerate(x)).values(), collections.UserList,
         lambda x: itertools.chain(x[:1], x[1:]), lambda x: (i for i in x), lambda x: filter(lambda i: True, x), tuple,
         lambda x: reversed(x[::-1]), lambda x: itertools.islice(x, len(x)))


class FailingMap:
    """A mapping that fails after a number of reads."""
    def __init__(self, d, tape):
        self.d = d
        self.t = tape
        self.n = 0

    def _read(self):
        n = self.n
        if self.t.fail_at is not None and n == self.t.fail_at:
            self.t.fail()
        self.n += 1
        if self.t.on_deliver is not None:
            self.t.on_deliver(n)
        w = simmods.WORLD
        if w is not None and w.threaded:
            w.yield_now('source')

    def keys(self):
        self._read()
        return self.d.keys()

    def values(self):
        self._read()
        return self.d.values()

    def items(self):
        for i in self.d.items():
            self._read()
            yield i
        self._read()

    def __iter__(self):
        for i in self.d:
            self._read()
            yield i

    def __len__(self):
        return len(self.d)

    def __getitem__(self, k):
        self._read()
        return self.d[k]

    def __contains__(self, k):
        self._read()
        return k in self.d

    def get(self, k, default=None):
        self._read()
        return self.d.get(k, default)


class Streamer:
    """Puts sources in the place of lists of a document."""
    def __init__(self, ch, cfg, maps=15, streams=60):
        self.ch = ch
        self.cfg = cfg
        self.maps = maps
        self.streams = streams
        self.tapes = []         # iterables
        self.maptapes = []
        self.plan = {}          # path -> decision, so that the document can be made again

    def make(self, t, av, doc, path=(), union=False):
        """The document, with sources. Each call makes new sources, with the same decisions."""
        while isinstance(t, NewT):
            t = t.t
        if isinstance(t, Uni):
            if sum(1 for m in t.ts if m.cat in ('listy', 'mappy')) > 1:
                # Each member that is tried reads it
                return doc
            return self.make(t.ts[av[0]], av[1], doc, path, True)
        if isinstance(t, Seq):
            if type(doc) not in (list, tuple):
                return doc
            items = [self.make(t.t, a, d, path + (i,), union) for i, (a, d) in enumerate(zip(av, doc))]
            k = self.decide(path, lambda: (1 + self.ch.draw(len(KINDS))) if self.ch.flag(self.streams) else
                            -(1 + self.ch.draw(len(PLAIN))) if self.ch.flag(50) else 0)
            if k == 0:
                return items
            if k < 0:
                return PLAIN[-k - 1](items)
            tape = Tape(items, '%s at %r' % (KINDS[k - 1].__name__, path))
            tape.union = union
            tape.path = path
            tape.type = t
            self.tapes.append(tape)
            tape.source = KINDS[k - 1](tape)
            return tape.source
        if isinstance(t, Tup):
            return [self.make(x, a, d, path + (i,), union) for i, (x, a, d) in enumerate(zip(t.ts, av, doc))]
        if isinstance(t, (Obj, Dct)) and type(doc) is dict:
            r = dict(doc)
            for step, ft, a, d in t.children(av, doc, self.cfg):
                r[step[-1]] = self.make(ft, a, d, path + (step[-1],), union)
            if self.decide(path, lambda: self.ch.flag(self.maps)):
                tape = Tape(r, 'mapping at %r' % (path,))
                tape.union = union
                self.maptapes.append(tape)
                return FailingMap(r, tape)
            return r
        return doc

    def decide(self, path, fn):
        if path not in self.plan:
            self.plan[path] = fn()
        return self.plan[path]
