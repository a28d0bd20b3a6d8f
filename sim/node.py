"""Pristine copies of the library under test.

A Node is one simulated process: its own freshly executed copy of every module of typedload (so its own
module level state) and its own freshly executed copy of the schema classes (so nothing that the library
may leave behind on user classes is shared). Code objects are compiled once from the working tree.

Modules through which code could reach the outside (threading, _thread, time, random) are replaced, for
the library only, with versions owned by the simulator.
"""
import builtins
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
PREFIX = os.path.join(REPO, 'typedload') + os.sep
SCHEMA_FILE = '<schema>'

_code = {}


class _Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code = _code.get(self.path)
        if code is None:
            with open(self.path, 'rb') as f:
                code = _code[self.path] = compile(f.read(), self.path, 'exec', dont_inherit=True)
        module.__dict__['__builtins__'] = _builtins()
        exec(code, module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != 'typedload' and not fullname.startswith('typedload.'):
            return None
        base = os.path.join(REPO, *fullname.split('.'))
        init = os.path.join(base, '__init__.py')
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(
                fullname, init, loader=_Loader(init), submodule_search_locations=[base])
        if os.path.isfile(base + '.py'):
            return importlib.util.spec_from_file_location(fullname, base + '.py', loader=_Loader(base + '.py'))
        return None


_substitutes = {}   # name -> module given to the library instead of the real one


def _builtins():
    """The builtins, with an import statement that knows the substitutes also when used inside of functions."""
    real = builtins.__import__

    def __import__(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0 and name in _substitutes:
            return _substitutes[name]
        return real(name, globals, locals, fromlist, level)
    return dict(vars(builtins), __import__=__import__)


def install():
    sys.meta_path.insert(0, _Finder())
    from . import simmods
    _substitutes.update(simmods.MODULES)
    # Everything the library imports from outside is loaded before, with the real modules
    import argparse, attr, attr._make, attrs, copy, collections, dataclasses, datetime, enum, functools  # noqa
    import inspect, ipaddress, itertools, json, operator, pathlib, re, typing, uuid, warnings, weakref  # noqa
    import contextlib, contextvars, abc, string, decimal, fractions, numbers, logging, traceback, threading  # noqa
    import time, random, hashlib, zlib, struct, textwrap, pprint, queue, heapq, bisect, keyword, tokenize, ast  # noqa
    warnings.simplefilter('ignore')


class Node:
    """One simulated process."""
    __slots__ = ('mods', 'schema', 'schemamod', 'tl')

    def __init__(self, schema_code=None):
        for n in [n for n in sys.modules if n == 'typedload' or n.startswith('typedload.')]:
            del sys.modules[n]
        saved = {k: sys.modules.get(k) for k in _substitutes}
        sys.modules.update(_substitutes)
        try:
            self.tl = importlib.import_module('typedload')
            for s in ('exceptions', 'typechecks', 'helpers', 'dataloader', 'datadumper'):
                try:
                    importlib.import_module('typedload.' + s)
                except ModuleNotFoundError:
                    if s in ('dataloader', 'datadumper', 'exceptions'):
                        raise
        finally:
            for k, v in saved.items():
                if v is None:
                    sys.modules.pop(k, None)
                else:
                    sys.modules[k] = v
        self.mods = {n: m for n, m in sys.modules.items() if n == 'typedload' or n.startswith('typedload.')}
        self.schema = self.schemamod = None
        if schema_code is not None:
            m = types.ModuleType('schema')
            m.__file__ = SCHEMA_FILE
            sys.modules['schema'] = m
            m.__dict__['__typedload_exceptions__'] = self.mods['typedload.exceptions']
            exec(schema_code, m.__dict__)
            self.schema = m.__dict__
            self.schemamod = m

    def with_schema(self, code, name='schema2'):
        """Another program in the same process: the same copy of the library, classes of its own (with the same names)."""
        n = object.__new__(Node)
        n.mods, n.tl = self.mods, self.tl
        m = types.ModuleType(name)
        m.__file__ = SCHEMA_FILE
        sys.modules[name] = m
        m.__dict__['__typedload_exceptions__'] = self.mods['typedload.exceptions']
        exec(code, m.__dict__)
        n.schema, n.schemamod = m.__dict__, m
        return n

    def activate(self):
        """What "import typedload" and "import schema" mean from now on."""
        for n in [n for n in sys.modules if n == 'typedload' or n.startswith('typedload.')]:
            if n not in self.mods:
                del sys.modules[n]
        sys.modules.update(self.mods)
        if self.schemamod is not None:
            sys.modules[self.schemamod.__name__] = self.schemamod

    @property
    def Loader(self):
        return self.mods['typedload.dataloader'].Loader

    @property
    def Dumper(self):
        return self.mods['typedload.datadumper'].Dumper

    @property
    def exc(self):
        return self.mods['typedload.exceptions']
