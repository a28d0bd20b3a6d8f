"""What a property module and the runner share: the environment of one run, violations, outcomes."""
import collections
import hashlib
import re
import typing

from . import canon as C
from . import node as nodemod
from . import sched, simmods
from .chooser import Chooser, derive


class Violation(Exception):
    """The property does not hold in this run. kind: short, stable, kept while shrinking."""
    def __init__(self, kind, message, sig=None):
        super().__init__(kind, message)
        self.kind = kind
        self.message = message
        self.sig = sig or kind


class Hang(BaseException):
    """The run used up far more processor time than any honest run."""


class Discard(Exception):
    """Nothing to check in this run (drawn configuration is vacuous)."""


CONTROL = (sched.StepBudget, simmods.SimDeadlock, Hang, sched.Stall, Violation, Discard)


def outcome(fn, *args, **kw):
    """('ok', value) or ('err', class, ...) in canonical form; nothing an execution does escapes."""
    try:
        v = fn(*args, **kw)
    except CONTROL:
        raise
    except BaseException as e:
        return ('err', C.canon_exc(e))
    return ('ok', C.canon(v))


def outcome_of(result):
    """The same from ('ok', object) | ('exc', exception), so that it happens outside of tracing."""
    return ('ok', C.canon(result[1])) if result[0] == 'ok' else ('err', C.canon_exc(result[1]))


def call(fn, *args, **kw):
    try:
        return ('ok', fn(*args, **kw))
    except CONTROL:
        raise
    except BaseException as e:
        return ('exc', e)


def show(o, n=400):
    """Readable form of an outcome."""
    if o[0] == 'ok':
        return 'value ' + C.brief(o[1], n)
    e = o[1]
    return 'error %s%s' % (e[0] if e[0] != 'foreign' else e[1], C.brief(e[1:] if e[0] != 'foreign' else e[2:], n))


class Env:
    """One run."""
    def __init__(self, index, ch, tier='quick'):
        self.index = index
        self.ch = ch
        self.tier = tier
        self.log = []                           # what happened, readable
        self.faults = collections.Counter()     # faults that actually fired
        self.probes = collections.Counter()     # rare conditions that were reached
        self.kinds = collections.Counter()      # workload mix
        self.ops = 0
        self.steps = 0                          # instructions executed under the simulator
        self.sim_us = 0
        self.ilv = None                         # fingerprint of the interleaving
        self.nontrivial = False
        self.nodes = 0
        self.cross = None                       # what other processes must agree on

    def ev(self, *what):
        self.log.append(' '.join(w if isinstance(w, str) else C.brief(w, 600) for w in what))

    def fail(self, kind, message, sig=None):
        raise Violation(kind, message, sig)

    def check(self, cond, kind, message):
        if not cond:
            raise Violation(kind, message() if callable(message) else message)

    def same(self, got, want, kind, what):
        if got != want:
            raise Violation(kind, '%s\n  got:      %s\n  expected: %s' % (what() if callable(what) else what, show(got, 1500), show(want, 1500)))

    def node(self, code=None):
        self.nodes += 1
        return nodemod.Node(code)

    def fault(self, kind, n=1):
        self.faults[kind] += n

    def probe(self, name, n=1):
        self.probes[name] += n

    def world(self, style='few', deep=False):
        return sched.World(self.ch, style, deep)

    def done_world(self, w):
        self.steps += w.total_steps
        self.sim_us += w.sim_us()
        w.close()

    def digest(self):
        return hashlib.sha256('\n'.join(self.log).encode('utf-8', 'backslashreplace')).hexdigest()[:16]


def fresh_process_state(seed):
    """Whatever outside of the library may remember something about earlier runs."""
    simmods.reset(seed)
    simmods.WORLD = None
    for c in typing._cleanups:
        c()
    re.purge()
