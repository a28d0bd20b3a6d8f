"""Callbacks of the user under the control of the simulator: each call is counted, and may fail or do more."""


class UserFailure(Exception):
    """An exception of the user's own."""


def _unprintable():
    class Odd(Exception):
        def __str__(self):
            raise RuntimeError('no text')
    return Odd()


FAILURES = (KeyError, RuntimeError, OSError, StopIteration, AssertionError, UserFailure, LookupError, AttributeError, ZeroDivisionError,
            NotImplementedError, ImportError, EOFError, StopAsyncIteration, BufferError, ArithmeticError, _unprintable,
            IndexError, OverflowError, NameError, UnboundLocalError, SystemError, ReferenceError, FileNotFoundError, TimeoutError, ConnectionResetError,
            PermissionError, FloatingPointError, ModuleNotFoundError, UserWarning, Exception)


class Hooks:
    """Install with node.schema['_hook'] = Hooks()"""
    def __init__(self):
        self.calls = 0
        self.where = []
        self.fail_at = None         # number of the call that fails
        self.make = None            # makes the exception
        self.fired = None
        self.then = None            # called with (where, value, object) at each call
        self.keep = False

    def __call__(self, where, value, obj):
        n = self.calls
        self.calls += 1
        if self.keep:
            self.where.append(where)
        if self.fail_at is not None and n == self.fail_at:
            self.fired = (where, self.make())
            raise self.fired[1]
        if self.then is not None:
            self.then(where, value, obj)
