"""Symbolic-mode harness API."""
import importlib

import z3
from . import core
from .core import eng
from .values import (SymBool, SymInt, SymReal, is_sym, mkbool, mkint, sand, sor, snot,
                     boolterm, intterm, realterm)
from .strings import SymStr, Atom, lift, mkstr, mk
from . import instr


def strict_eq(a, b):
    """Formula for deep, type-strict equality (bool is not int is not float)."""
    if a is b:
        return True
    if isinstance(a, bool) or isinstance(b, bool):
        if not (isinstance(a, bool) and isinstance(b, bool)):
            return False
        return a == b
    if isinstance(a, str) or isinstance(b, str):
        if not (isinstance(a, str) and isinstance(b, str)):
            return False
        if type(a) is instr.JsonText or type(b) is instr.JsonText:
            return a is b
        return a == b
    if isinstance(a, (int, float)) or isinstance(b, (int, float)):
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        if isinstance(a, float) and isinstance(b, float):
            return a == b
        return False
    if isinstance(a, bytes) or isinstance(b, bytes):
        return isinstance(a, bytes) and isinstance(b, bytes) and a == b
    if type(a) in (list, tuple) and type(a) is type(b):
        if len(a) != len(b):
            return False
        return sand(*[strict_eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        out = []
        for k, v in a.items():
            if not instr.sx_contains(b, k):
                return False
            out.append(strict_eq(v, instr.sx_getitem(b, k)))
        return sand(*out)
    if type(a) in (set, frozenset) and type(a) is type(b):
        return len(a) == len(b) and all(instr.sx_contains(b, x) for x in a)
    if a is None or b is None:
        return False
    if type(a) is not type(b):
        return False
    return a == b


class SymAPI:
    concrete = False

    def __init__(self, findings=()):
        self.active_findings = set(findings)

    @property
    def datetime(self):
        return instr.sym_module('datetime')

    # -- inputs
    def _new(self, name, kind, payload):
        e = eng()
        if name in e.vars:
            raise core.EngineError('duplicate input %s' % name)
        e.vars[name] = (kind, payload)
        e.order.append(name)

    def int(self, name, lo=None, hi=None):
        t = z3.Int(name)
        self._new(name, 'int', t)
        if lo is not None:
            eng().assume(t >= lo)
        if hi is not None:
            eng().assume(t <= hi)
        return SymInt(t)

    def bool(self, name):
        t = z3.Bool(name)
        self._new(name, 'bool', t)
        return SymBool(t)

    def real(self, name, lo=None, hi=None):
        t = z3.Real(name)
        self._new(name, 'real', t)
        if lo is not None:
            eng().assume(t >= lo)
        if hi is not None:
            eng().assume(t <= hi)
        return SymReal(t)

    def choice(self, name, options):
        options = list(options)
        t = z3.Int(name)
        self._new(name, 'int', t)
        e = eng()
        e.assume(z3.And(t >= 0, t < len(options)))
        for i in range(len(options) - 1):
            if e.branch(t == i):
                return options[i]
        return options[-1]

    def str(self, name, n, lo=0, hi=127):
        cs = [z3.Int('%s[%d]' % (name, i)) for i in range(n)]
        self._new(name, 'str', cs)
        for c in cs:
            if lo < 0xD800 and hi > 0xDFFF:
                eng().assume(z3.Or(z3.And(c >= lo, c <= 0xD7FF), z3.And(c >= 0xE000, c <= hi)))
            else:
                eng().assume(z3.And(c >= lo, c <= hi))
        return mkstr(cs)

    # -- logic
    def assume(self, c):
        eng().assume(boolterm(c))

    def check(self, c, msg, unless=None):
        e = eng()
        c = boolterm(c)
        for fid, pred in (unless or {}).items():
            if fid not in self.active_findings:
                continue
            p = boolterm(pred() if callable(pred) else pred)
            # inside the finding's own region nothing is asserted; whether the
            # finding still fails there is recorded
            if e.branch(p):
                if not e.branch(c):
                    e.findings[fid] = e.findings.get(fid, 0) + 1
                return
        e.check(c, msg)

    def fail(self, msg, unless=None):
        self.check(False, msg, unless)

    def eq(self, a, b):
        return strict_eq(a, b)

    def ne(self, a, b):
        return snot(strict_eq(a, b))

    def and_(self, *xs):
        return sand(*xs)

    def or_(self, *xs):
        return sor(*xs)

    def not_(self, x):
        return snot(x)

    def implies(self, a, b):
        return sor(snot(a), b)

    def ite(self, c, a, b):
        t = boolterm(c)
        if t is True:
            return a
        if t is False:
            return b
        if isinstance(a, bool) and isinstance(b, bool):
            return mkbool(z3.If(t, _zb(a), _zb(b)))
        ia, ib = intterm(a), intterm(b)
        return mkint(z3.If(t, ia, ib))

    # -- strings
    def concat(self, *xs):
        out = []
        for x in xs:
            out += lift(x)._p
        return mkstr(out)

    def tokens(self, s):
        """string as a list of ('c', char) / ('n', int, width) tokens; decimal
        renderings of symbolic integers stay symbolic"""
        out = []
        run = None          # list of digit code points
        e = eng()

        def flush():
            nonlocal run
            if run is not None:
                v = z3.IntVal(0)
                for d in run:
                    v = v * 10 + (d - 48)
                out.append(('n', mkint(v), len(run)))
                run = None
        for p in lift(s).tokens():
            if type(p) is Atom:
                if run is not None or e.branch(p.t < 0):
                    return self.tokens(mkstr(lift(s).chars()))
                flush()
                if out and out[-1][0] == 'n':
                    return self.tokens(mkstr(lift(s).chars()))
                # number of digits is only known as at least the width
                out.append(('n', mkint(p.t), p.width or None))
                run_after = True
                continue
            isd = (48 <= p <= 57) if isinstance(p, int) else e.branch(z3.And(p >= 48, p <= 57))
            if isd:
                if run is None and out and out[-1][0] == 'n':
                    return self.tokens(mkstr(lift(s).chars()))
                run = (run or []) + [p]
            else:
                flush()
                out.append(('c', mkstr([p])))
        flush()
        return out

    def ord(self, ch):
        return instr.sx_call(ord, ch)

    def istext(self, x):
        return isinstance(x, str)

    # -- environment
    def patch(self, obj, name, value):
        missing = object()
        old = obj.__dict__.get(name, missing) if hasattr(obj, '__dict__') else getattr(obj, name)
        setattr(obj, name, value)

        def undo():
            if old is missing:
                delattr(obj, name)
            else:
                setattr(obj, name, old)
        eng().restore.append(undo)

    def cleanup(self, fn):
        eng().restore.append(fn)

    def module(self, name):
        return importlib.import_module(name)

    def json_loads(self, text):
        import json
        return instr.sx_call(json.loads, text)

    def json_text(self, value):
        import json
        return instr.sx_call(json.dumps, value)


def _zb(x):
    t = boolterm(x)
    return z3.BoolVal(t) if isinstance(t, bool) else t
