"""Symbolic proxies: SymInt, SymBool, SymReal, SymStr, SymBytes.

Every operation is exact: it either builds the z3 term with Python's semantics,
or forks until the answer is concrete, or raises Unsupported.  `__class__`
reports the modelled builtin so that isinstance() works natively.
"""
import z3
from . import core
from .core import eng, Unsupported, LIVE

I = z3.IntVal


def is_sym(x):
    return isinstance(type(x), SymMeta)


class SymMeta(type):
    pass


_OBJS = []           # in-process table for pickled proxies


def _restore(i):
    return _OBJS[i]


class Sym(metaclass=SymMeta):
    __slots__ = ()

    def __reduce_ex__(self, proto):
        _OBJS.append(self)
        return (_restore, (len(_OBJS) - 1,))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def boolterm(x):
    """z3 term (or Python bool) of a boolean-like value."""
    if type(x) is SymBool:
        return x.t
    if isinstance(x, bool):
        return x
    return bool(x)


def intterm(x):
    t = type(x)
    if t is SymInt:
        return x.t
    if t is SymBool:
        return z3.If(x.t, I(1), I(0))
    if t is int:
        return I(x)
    if t is bool:
        return I(int(x))
    if isinstance(x, int) and not is_sym(x):
        return I(int(x))
    return None


def realterm(x):
    t = type(x)
    if t is SymReal:
        return x.t
    if t is float:
        if x != x or x in (float('inf'), float('-inf')):
            return None
        n, d = x.as_integer_ratio()
        return z3.Q(n, d)
    i = intterm(x)
    return None if i is None else z3.ToReal(i)


def mkint(t):
    t = z3.simplify(t) if not isinstance(t, int) else I(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SymInt(t)


def mkbool(t):
    if t is True or t is False:
        return t
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def mkreal(t):
    return SymReal(z3.simplify(t))


class SymBool(Sym):
    __slots__ = ('t',)
    __class__ = property(lambda self: bool)

    def __init__(self, t):
        LIVE[0] = True
        self.t = t

    def __bool__(self):
        return eng().branch(self.t)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __repr__(self):
        return repr(bool(self))

    __str__ = __repr__

    def __eq__(self, o):
        if type(o) is SymBool:
            return mkbool(self.t == o.t)
        if isinstance(o, bool):
            return mkbool(self.t if o else z3.Not(self.t))
        b = intterm(o)
        if b is None:
            return NotImplemented
        return mkbool(intterm(self) == b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def __and__(self, o):
        if isinstance(o, bool):
            return sand(self, o)
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, bool):
            return sor(self, o)
        return NotImplemented

    __ror__ = __or__

    def _i(self):
        return SymInt(intterm(self))

    def __add__(self, o):
        return self._i() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def __mul__(self, o):
        return self._i() * o

    __rmul__ = __mul__

    def __lt__(self, o):
        return self._i() < o

    def __le__(self, o):
        return self._i() <= o

    def __gt__(self, o):
        return self._i() > o

    def __ge__(self, o):
        return self._i() >= o


def snot(x):
    if type(x) is SymBool:
        return mkbool(z3.Not(x.t))
    return not x


def sand(*xs):
    ts = []
    for x in xs:
        t = boolterm(x)
        if t is False:
            return False
        if t is not True:
            ts.append(t)
    if not ts:
        return True
    return mkbool(z3.And(*ts) if len(ts) > 1 else ts[0])


def sor(*xs):
    ts = []
    for x in xs:
        t = boolterm(x)
        if t is True:
            return True
        if t is not False:
            ts.append(t)
    if not ts:
        return False
    return mkbool(z3.Or(*ts) if len(ts) > 1 else ts[0])


def floordiv(a, b):
    """Python floor division on z3 ints (b known non-zero)."""
    if z3.is_int_value(b):
        k = b.as_long()
        if k > 0:
            return a / b
        return (-a) / I(-k)
    return z3.If(b > 0, a / b, (-a) / (-b))


def pymod(a, b):
    if z3.is_int_value(b):
        k = b.as_long()
        if k > 0:
            return a % b
        return -((-a) % I(-k))
    return z3.If(b > 0, a % b, -((-a) % (-b)))


class SymInt(Sym):
    __slots__ = ('t',)
    __class__ = property(lambda self: int)

    def __init__(self, t):
        LIVE[0] = True
        self.t = t

    def __bool__(self):
        return eng().branch(self.t != 0)

    def __hash__(self):
        return 0x51

    def __index__(self):
        return eng().enumerate_value(self.t)

    __int__ = __index__

    def __float__(self):
        return float(eng().enumerate_value(self.t, what='float()'))

    def __repr__(self):
        return str(eng().enumerate_value(self.t, what='repr()'))

    __str__ = __repr__

    def __format__(self, spec):
        return format(eng().enumerate_value(self.t, what='format()'), spec)

    def __ceil__(self):
        return self

    __floor__ = __trunc__ = __ceil__
    __pos__ = __ceil__

    def __round__(self, n=None):
        if n is not None and n < 0:
            raise Unsupported('round(int, negative)')
        return self

    def __neg__(self):
        return mkint(-self.t)

    def __abs__(self):
        return mkint(z3.If(self.t >= 0, self.t, -self.t))

    def __invert__(self):
        return mkint(-self.t - 1)

    real = property(lambda self: self)
    imag = property(lambda self: 0)
    numerator = property(lambda self: self)
    denominator = property(lambda self: 1)

    def is_integer(self):
        return True

    def bit_length(self):
        raise Unsupported('bit_length')

    def _arith(self, o, fi, fr, rev=False):
        b = intterm(o)
        if b is not None:
            return mkint(fi(b, self.t) if rev else fi(self.t, b))
        b = realterm(o)
        if b is None:
            return NotImplemented
        a = z3.ToReal(self.t)
        return mkreal(fr(b, a) if rev else fr(a, b))

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b, lambda a, b: a + b)

    def __radd__(self, o):
        return self._arith(o, lambda a, b: a + b, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: a - b, lambda a, b: a - b, True)

    def __mul__(self, o):
        if type(o) in (str, list, tuple, bytes):
            return o * eng().enumerate_value(self.t, what='repetition')
        return self._arith(o, lambda a, b: a * b, lambda a, b: a * b)

    __rmul__ = __mul__

    def _div(self, o, rev, fn, what):
        b = intterm(o)
        if b is None:
            if realterm(o) is None:
                return NotImplemented
            raise Unsupported('%s with float' % what)
        x, y = (b, self.t) if rev else (self.t, b)
        if eng().branch(y == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        return mkint(fn(x, y))

    def __floordiv__(self, o):
        return self._div(o, False, floordiv, '//')

    def __rfloordiv__(self, o):
        return self._div(o, True, floordiv, '//')

    def __mod__(self, o):
        return self._div(o, False, pymod, '%')

    def __rmod__(self, o):
        if isinstance(o, (str, bytes)):
            raise Unsupported('%-format outside instrumented code')
        return self._div(o, True, pymod, '%')

    def __divmod__(self, o):
        q = self.__floordiv__(o)
        return q if q is NotImplemented else (q, self.__mod__(o))

    def __rdivmod__(self, o):
        q = self.__rfloordiv__(o)
        return q if q is NotImplemented else (q, self.__rmod__(o))

    def __truediv__(self, o):
        b = realterm(o)
        if b is None:
            return NotImplemented
        if eng().branch(b == 0):
            raise ZeroDivisionError('division by zero')
        return mkreal(z3.ToReal(self.t) / b)

    def __rtruediv__(self, o):
        b = realterm(o)
        if b is None:
            return NotImplemented
        if eng().branch(self.t == 0):
            raise ZeroDivisionError('division by zero')
        return mkreal(b / z3.ToReal(self.t))

    def __pow__(self, o, m=None):
        if m is None and type(o) is int and 0 <= o <= 4:
            r = I(1)
            for _ in range(o):
                r = r * self.t
            return mkint(r)
        if m is None and type(o) is float and o == 0.5:
            return ssqrt(self)
        return pow(int(self), o, m) if m is not None else int(self) ** o

    def __rpow__(self, o):
        return o ** int(self)

    def __lshift__(self, o):
        return self * (1 << int(o))

    def __rshift__(self, o):
        return self // (1 << int(o))

    def __and__(self, o):
        if type(o) is int and o >= 0 and (o & (o + 1)) == 0:
            return mkint(pymod(self.t, I(o + 1)))
        return int(self) & int(o)

    __rand__ = __and__

    def __or__(self, o):
        return int(self) | int(o)

    __ror__ = __or__

    def __xor__(self, o):
        return int(self) ^ int(o)

    def _cmp(self, o, f):
        b = intterm(o)
        if b is not None:
            return mkbool(f(self.t, b))
        if type(o) is float and (o != o or o in (float('inf'), float('-inf'))):
            return f(0.0, o)
        b = realterm(o)
        if b is None:
            return NotImplemented
        return mkbool(f(z3.ToReal(self.t), b))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def to_bytes(self, *a, **k):
        return int(self).to_bytes(*a, **k)


class SymReal(Sym):
    """A float modelled as a mathematical real (used where the code only
    compares, scales, rounds up/down or forwards it)."""
    __slots__ = ('t', 'sqrt_of')
    __class__ = property(lambda self: float)

    def __init__(self, t, sqrt_of=None):
        LIVE[0] = True
        self.t = t
        self.sqrt_of = sqrt_of

    def __bool__(self):
        if self.sqrt_of is not None:
            return bool(self.sqrt_of)
        return eng().branch(self.t != 0)

    def __hash__(self):
        return 0x52

    def __repr__(self):
        raise Unsupported('repr of symbolic float')

    __str__ = __repr__
    __float__ = __int__ = __repr__

    def __floor__(self):
        if self.sqrt_of is not None:
            return isqrt(self.sqrt_of)
        return mkint(z3.ToInt(self.t))

    def __ceil__(self):
        if self.sqrt_of is not None:
            r = isqrt(self.sqrt_of)
            return r if eng().branch(self.sqrt_of.t == r * r) else r + 1
        return mkint(-z3.ToInt(-self.t))

    def __trunc__(self):
        if self.sqrt_of is not None:
            return isqrt(self.sqrt_of)
        return mkint(z3.If(self.t >= 0, z3.ToInt(self.t), -z3.ToInt(-self.t)))

    def __round__(self, n=None):
        if n is not None or self.sqrt_of is not None:
            raise Unsupported('round of symbolic float')
        f = z3.ToInt(self.t)
        d = self.t - z3.ToReal(f)
        half = z3.RealVal('1/2')
        return mkint(z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1))))

    def is_integer(self):
        return mkbool(z3.IsInt(self.t))

    def __neg__(self):
        return mkreal(-self.t)

    def __abs__(self):
        return mkreal(z3.If(self.t >= 0, self.t, -self.t))

    def _ar(self, o, f, rev=False):
        if self.sqrt_of is not None or (type(o) is SymReal and o.sqrt_of is not None):
            raise Unsupported('arithmetic on sqrt()')
        b = realterm(o)
        if b is None:
            return NotImplemented
        return mkreal(f(b, self.t) if rev else f(self.t, b))

    def __add__(self, o):
        return self._ar(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._ar(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._ar(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        return self._ar(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        b = realterm(o)
        if b is None:
            return NotImplemented
        if eng().branch(b == 0):
            raise ZeroDivisionError('float division by zero')
        return mkreal(self.t / b)

    def __rtruediv__(self, o):
        b = realterm(o)
        if b is None:
            return NotImplemented
        if eng().branch(self.t == 0):
            raise ZeroDivisionError('float division by zero')
        return mkreal(b / self.t)

    def __floordiv__(self, o):
        raise Unsupported('float //')

    def __mod__(self, o):
        raise Unsupported('float %')

    def _cmp(self, o, f):
        if type(o) is float and (o != o or o in (float('inf'), float('-inf'))):
            return f(0.0, o)
        if self.sqrt_of is not None:
            b, n = intterm(o), self.sqrt_of.t
            if b is None:
                raise Unsupported('comparing sqrt() with a non-integer')
            eq = z3.And(b >= 0, b * b == n)
            gt = z3.Or(b < 0, b * b < n)
            # f applied to the ordering outcome
            return mkbool(z3.If(eq, z3.BoolVal(f(0, 0)),
                                z3.If(gt, z3.BoolVal(f(1, 0)), z3.BoolVal(f(0, 1)))))
        b = realterm(o)
        if b is None:
            return NotImplemented
        return mkbool(f(self.t, b))

    __eq__ = lambda self, o: self._cmp(o, lambda a, b: a == b)
    __ne__ = lambda self, o: self._cmp(o, lambda a, b: a != b)
    __lt__ = lambda self, o: self._cmp(o, lambda a, b: a < b)
    __le__ = lambda self, o: self._cmp(o, lambda a, b: a <= b)
    __gt__ = lambda self, o: self._cmp(o, lambda a, b: a > b)
    __ge__ = lambda self, o: self._cmp(o, lambda a, b: a >= b)


def isqrt(n):
    """floor(sqrt(n)) as a fresh term r with r*r <= n < (r+1)*(r+1)."""
    e = eng()
    t = n.t
    k = 0
    # enumerate: stays linear, and the values n can take are bounded
    while not e.branch(t < (k + 1) * (k + 1)):
        k += 1
        if k > 5000:
            raise Unsupported('isqrt of a large symbolic value')
    return k


def ssqrt(n):
    if type(n) is SymInt:
        if eng().branch(n.t < 0):
            raise ValueError('math domain error')
        return SymReal(None, sqrt_of=n)
    raise Unsupported('sqrt of symbolic float')
