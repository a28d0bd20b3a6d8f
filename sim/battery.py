"""A few loads and dumps for which each of the settings makes a difference: is this object still what it was?"""
import argparse
import datetime
import enum
import pathlib
from dataclasses import dataclass, field
from typing import Dict, List, NamedTuple, Optional, Union

from . import core


@dataclass
class ProbeD:
    a: int = field(default=1, metadata={'name': 'A', 'alt': 'b'})
    c: Optional[datetime.date] = None
    d: List[int] = field(default_factory=list)


@dataclass
class ProbeE:
    a: str = ''
    c: str = ''


class ProbeN(NamedTuple):
    a: int
    b: float = 0.5


class ProbeS(enum.Enum):
    x = 'x'
    y = 2


LOADS = (
    ('1', int), (1.5, str), ({'a': 1}, ProbeN), ({'a': 1, 'zz': 1}, ProbeN), ({'A': 3}, ProbeD), ({'b': 3}, ProbeD), ({'a': 3}, ProbeD),
    ({'c': '2020-01-01'}, Union[ProbeD, ProbeE]), (argparse.Namespace(a='2'), ProbeN), ('x', pathlib.Path), ([1, '2'], List[int]), ({'k': '1'}, Dict[str, int]),
    ('y', ProbeS), (b'x', bytes), ([2020, 1, 1], datetime.date),
)
DUMPS = (
    (lambda: datetime.date(2020, 1, 1)), (lambda: ProbeD()), (lambda: ProbeD(2, datetime.date(2020, 1, 1), [1])), (lambda: ProbeN(1)),
    (lambda: pathlib.Path('x')), (lambda: ProbeS.x), (lambda: b'x'), (lambda: [datetime.datetime(2020, 1, 1), 1, 'x', None, True]),
    (lambda: object),
)


def loads(obj):
    return [core.outcome_of(core.call(obj.load, v, t)) for v, t in LOADS]


def dumps(obj):
    return [core.outcome_of(core.call(obj.dump, f())) for f in DUMPS]


def check(env, w, node, obj, load, kind, what):
    """obj gives for these what a brand new one of the same settings gives."""
    f = loads if load else dumps
    node.activate()
    got = f(obj)
    n = w.node()
    n.activate()
    want = f(w.loader(n) if load else w.dumper(n))
    node.activate()
    env.ops += len(got)
    for i, (g, x) in enumerate(zip(got, want)):
        env.same(g, x, kind, lambda: '%s: %s' % (what, 'load of %r into %s' % LOADS[i] if load else 'dump of %r' % (DUMPS[i](),)))
