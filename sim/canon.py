"""Canonical, comparable form of values, exceptions and outcomes.

Classes are compared by name, so outcomes of different nodes (with their own copies of the classes) can
be compared. Dictionaries and sets are compared regardless of order.
"""
import datetime
import enum
import ipaddress
import pathlib
import re
import uuid

_ADDR = re.compile(r'0x[0-9a-fA-F]{4,}')
_SETREPR = re.compile(r'\{[^{}]*\}')
_DIRECT = (datetime.date, datetime.time, datetime.timedelta, pathlib.PurePath, uuid.UUID,
           ipaddress.IPv4Address, ipaddress.IPv6Address, ipaddress.IPv4Network, ipaddress.IPv6Network)


def norm(text):
    text = _ADDR.sub('0x', text).replace('schema2.', 'schema.')
    # the order of a printed set is nobody's business
    return _SETREPR.sub(lambda m: '{' + ', '.join(sorted(m.group(0)[1:-1].split(', '))) + '}', text)


def canon(v, depth=0):
    if depth > 400:
        return ('...',)
    t = type(v)
    if v is None or t is bool or t is int or t is str or t is bytes:
        return (t.__name__, v) if t is not int or -(1 << 60) < v < (1 << 60) else ('int', hex(v))
    if t is float:
        return ('float', repr(v))
    d = depth + 1
    if t is list:
        return ('list', tuple([canon(i, d) for i in v]))
    if t is tuple:
        return ('tuple', tuple([canon(i, d) for i in v]))
    if t is dict:
        return ('dict', tuple(sorted([(canon(k, d), canon(x, d)) for k, x in v.items()], key=repr)))
    if t is set or t is frozenset:
        return (t.__name__, tuple(sorted([canon(i, d) for i in v], key=repr)))
    if isinstance(v, enum.Enum):
        return ('enum', t.__name__, v.name)
    if isinstance(v, tuple) and hasattr(v, '_fields'):
        return ('nt', t.__name__, tuple([(f, canon(getattr(v, f), d)) for f in v._fields]))
    if hasattr(t, '__dataclass_fields__'):
        return ('dc', t.__name__, tuple([(f, canon(getattr(v, f, '<unset>'), d)) for f in sorted(t.__dataclass_fields__)]))
    if hasattr(t, '__attrs_attrs__'):
        return ('attrs', t.__name__, tuple([(a.name, canon(getattr(v, a.name, '<unset>'), d)) for a in t.__attrs_attrs__]))
    if isinstance(v, re.Pattern):
        return ('re', canon(v.pattern), v.flags)
    if isinstance(v, datetime.datetime) or isinstance(v, datetime.time):
        return (t.__name__, v.isoformat(), v.fold)
    if isinstance(v, _DIRECT):
        return (t.__name__, str(v))
    if isinstance(v, type):
        return ('type', v.__qualname__)
    if isinstance(v, BaseException):
        return ('exception', t.__name__, norm(str(v)))
    if hasattr(t, '__canon__'):
        return v.__canon__(d)
    return (t.__name__, norm(repr(v)))


def typename(t):
    return norm(getattr(t, '__qualname__', None) or str(t)) if isinstance(t, type) else norm(str(t))


def canon_annotation(a):
    if a is None:
        return None
    try:
        kind = a[0].value
        v = a[1]
    except Exception:
        return ('?', norm(repr(a)))
    if kind == 'union':
        return (kind, typename(v))
    return (kind, canon(v))


def canon_exc(e, depth=0):
    """Class, message, location, value of a TypedloadException and of its sub-exceptions."""
    if depth > 30:
        return ('...',)
    try:
        args = tuple(norm(str(a)) for a in e.args)
    except BaseException as e2:
        args = ('unprintable: ' + type(e2).__name__,)
    if not hasattr(e, 'trace') or not hasattr(e, 'exceptions'):
        return ('foreign', type(e).__name__, args)
    try:
        trace = tuple((canon(i.value), typename(i.type_), canon_annotation(i.annotation)) for i in e.trace)
    except Exception as e2:
        trace = ('bad trace', type(e2).__name__)
    return (type(e).__name__, args, trace, canon(e.value), typename(e.type_),
            tuple(canon_exc(i, depth + 1) for i in e.exceptions))


def brief(o, n=300):
    s = repr(o)
    return s if len(s) <= n else s[:n] + '...'
