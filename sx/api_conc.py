"""Concrete-mode harness API: the same harness functions, run with the values of
one solver model on the unmodified code under the repository's own interpreter."""
import datetime
import importlib
import json
import sys


class CheckFailed(BaseException):
    pass


class Skip(BaseException):
    """an assumption does not hold for these inputs"""


def strict_eq(a, b):
    if a is b:
        return True
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, float) and isinstance(b, float):
        return a == b
    if isinstance(a, (int, float)) or isinstance(b, (int, float)):
        return False
    if type(a) in (list, tuple) and type(a) is type(b):
        return len(a) == len(b) and all(strict_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        for k, v in a.items():
            if k not in b or not strict_eq(v, b[k]):
                return False
        return True
    if type(a) in (set, frozenset) and type(a) is type(b):
        return a == b
    if a is None or b is None:
        return False
    return type(a) is type(b) and a == b


class ConcreteAPI:
    concrete = True
    datetime = datetime

    def __init__(self, inputs, findings=()):
        self.inputs = inputs
        self.failures = []
        self.known = []
        self._undo = []
        self.checks = 0
        self.active_findings = set(findings)

    # -- inputs
    def _get(self, name, default):
        return self.inputs.get(name, default)

    def int(self, name, lo=None, hi=None):
        d = lo if lo is not None else (hi if hi is not None and hi < 0 else 0)
        return self._get(name, d)

    def bool(self, name):
        return self._get(name, False)

    def real(self, name, lo=None, hi=None):
        v = self._get(name, lo or 0)
        if isinstance(v, list):
            v = v[1] / v[2]
        return float(v)

    def choice(self, name, options):
        options = list(options)
        return options[self._get(name, 0)]

    def str(self, name, n, lo=0, hi=127):
        return self._get(name, chr(lo) * n)

    # -- logic
    def assume(self, c):
        if not c:
            raise Skip()

    def check(self, c, msg, unless=None):
        self.checks += 1
        if c:
            return
        for fid, pred in (unless or {}).items():
            if fid in self.active_findings and (pred() if callable(pred) else pred):
                self.known.append(fid)
                return
        self.failures.append(msg)
        raise CheckFailed(msg)

    def fail(self, msg, unless=None):
        self.check(False, msg, unless)

    def eq(self, a, b):
        return strict_eq(a, b)

    def ne(self, a, b):
        return not strict_eq(a, b)

    def and_(self, *xs):
        return all(xs)

    def or_(self, *xs):
        return any(xs)

    def not_(self, x):
        return not x

    def implies(self, a, b):
        return (not a) or b

    def ite(self, c, a, b):
        return a if c else b

    # -- strings
    def concat(self, *xs):
        return ''.join(xs)

    def tokens(self, s):
        """string as a list of ('c', char) / ('n', int) tokens: maximal digit runs"""
        out, i = [], 0
        while i < len(s):
            if s[i].isdigit():
                j = i
                while j < len(s) and s[j].isdigit():
                    j += 1
                out.append(('n', int(s[i:j]), j - i))
                i = j
            else:
                out.append(('c', s[i]))
                i += 1
        return out

    def ord(self, ch):
        return ord(ch)

    def istext(self, x):
        return isinstance(x, str)

    # -- environment
    def patch(self, obj, name, value):
        missing = object()
        old = obj.__dict__.get(name, missing) if hasattr(obj, '__dict__') else getattr(obj, name)
        setattr(obj, name, value)

        def undo():
            if old is missing:
                delattr(obj, name)
            else:
                setattr(obj, name, old)
        self._undo.append(undo)

    def cleanup(self, fn):
        self._undo.append(fn)

    def module(self, name):
        return importlib.import_module(name)

    def json_loads(self, text):
        return json.loads(text)

    def json_text(self, value):
        return json.dumps(value)

    def done(self):
        for u in reversed(self._undo):
            u()
        self._undo = []


def attempt(fn, *excs):
    """('ok', value) or ('exc', exception) for the listed exception types"""
    try:
        return ('ok', fn())
    except excs as e:
        return ('exc', e)
