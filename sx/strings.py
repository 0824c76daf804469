"""Symbolic strings: fixed-length vectors of code points (each concrete or a
z3 Int), with lazily expanded decimal atoms for str(int)."""
import z3
from . import core
from .core import eng, Unsupported, LIVE
from .values import (Sym, SymBool, SymInt, SymReal, is_sym, mkbool, mkint, sand,
                     sor, snot, intterm, I)


class Atom:
    """Decimal rendering of an integer term: format(v, '0<width>d')."""
    __slots__ = ('t', 'width')

    def __init__(self, t, width=0):
        self.t, self.width = t, width


def ceq(a, b):
    """equality of two code points -> bool or z3 term"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return a == b if not isinstance(a, int) else b == a


def cin(c, lo, hi):
    if isinstance(c, int):
        return lo <= c <= hi
    return z3.And(c >= lo, c <= hi)


def zand(xs):
    out = []
    for x in xs:
        if x is False:
            return False
        if x is not True:
            out.append(x)
    if not out:
        return True
    return z3.And(*out) if len(out) > 1 else out[0]


def zor(xs):
    out = []
    for x in xs:
        if x is True:
            return True
        if x is not False:
            out.append(x)
    if not out:
        return False
    return z3.Or(*out) if len(out) > 1 else out[0]


def znot(x):
    if x is True or x is False:
        return not x
    return z3.Not(x)


def lift(s):
    if type(s) is SymStr:
        return s
    if isinstance(s, str):
        return SymStr([ord(c) for c in s])
    return None


def mkstr(pieces):
    """SymStr, or a real str if everything is concrete."""
    if all(isinstance(p, int) for p in pieces):
        return ''.join(map(chr, pieces))
    return SymStr(pieces)


class SymStr(Sym):
    __slots__ = ('_p',)
    __class__ = property(lambda self: str)

    def __init__(self, pieces):
        LIVE[0] = True
        self._p = list(pieces)

    # -- atoms ------------------------------------------------------------
    def chars(self):
        """code point vector, expanding decimal atoms by forking on the sign
        and number of digits"""
        if any(type(p) is Atom for p in self._p):
            out = []
            for p in self._p:
                if type(p) is Atom:
                    out.extend(expand_atom(p))
                else:
                    out.append(p)
            self._p = out
        return self._p

    def tokens(self):
        """list of ('c', codepoint) / ('n', int term, width) without forking"""
        return list(self._p)

    def __len__(self):
        return len(self.chars())

    def symlen(self):
        """length without expanding decimal atoms (int or SymInt)"""
        n, ts = 0, []
        for p in self._p:
            if type(p) is not Atom:
                n += 1
                continue
            t = z3.simplify(p.t)
            if eng().branch(z3.And(t < 10 ** 20, t > -10 ** 20)) is False:
                return len(self.chars())
            mag = z3.If(t < 0, -t, t)
            k = z3.IntVal(20)
            for d in range(19, 0, -1):
                k = z3.If(mag < 10 ** d, z3.IntVal(d), k)
            if p.width > 1:
                w = z3.If(t < 0, p.width - 1, p.width)
                k = z3.If(k < w, w, k)
            ts.append(k + z3.If(t < 0, 1, 0))
        return mkint(z3.Sum(ts) + n) if ts else n

    def __bool__(self):
        return len(self._p) > 0

    def __hash__(self):
        return 0x53

    def __repr__(self):
        raise Unsupported('repr of a symbolic string outside instrumented code')

    def __str__(self):
        raise Unsupported('str() of a symbolic string outside instrumented code')

    def __format__(self, spec):
        raise Unsupported('format() of a symbolic string outside instrumented code')

    def __iter__(self):
        return (mkstr([c]) for c in list(self.chars()))

    # -- comparison ---------------------------------------------------------
    def eqterm(self, o):
        a, b = self.chars(), o.chars()
        if len(a) != len(b):
            return False
        return zand([ceq(x, y) for x, y in zip(a, b)])

    def ltterm(self, o, orequal=False):
        a, b = self.chars(), o.chars()
        n = min(len(a), len(b))
        res = (len(a) <= len(b)) if orequal else (len(a) < len(b))
        for i in range(n - 1, -1, -1):
            x, y = a[i], b[i]
            if isinstance(x, int) and isinstance(y, int):
                res = True if x < y else (False if x > y else res)
            else:
                lt = (x < y) if not isinstance(x, int) else (y > x)
                res = zor([lt, zand([ceq(x, y), res])])
        return res

    def __eq__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        if self is o:
            return True
        return mkbool(self.eqterm(o))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def __lt__(self, o):
        o = lift(o)
        return NotImplemented if o is None else mkbool(self.ltterm(o))

    def __le__(self, o):
        o = lift(o)
        return NotImplemented if o is None else mkbool(self.ltterm(o, True))

    def __gt__(self, o):
        o = lift(o)
        return NotImplemented if o is None else mkbool(o.ltterm(self))

    def __ge__(self, o):
        o = lift(o)
        return NotImplemented if o is None else mkbool(o.ltterm(self, True))

    # -- building -------------------------------------------------------------
    def __add__(self, o):
        if isinstance(o, str):
            return mkstr(self._p + lift(o)._p)
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return mkstr(lift(o)._p + self._p)
        return NotImplemented

    def __mul__(self, n):
        return mkstr(self.chars() * int(n))

    __rmul__ = __mul__

    def __mod__(self, o):
        raise Unsupported('%-format with symbolic format string')

    def __getitem__(self, k):
        c = self.chars()
        if isinstance(k, slice):
            return mkstr(c[k])
        n = len(c)
        if is_sym(k):
            k = int(k)
        return mkstr([c[k]])

    def __contains__(self, sub):
        s = lift(sub)
        if s is None:
            raise TypeError("'in <string>' requires string as left operand")
        return bool(mkbool(self._contains(s)))

    def _at(self, i, s):
        """term: s occurs at position i"""
        a, b = self.chars(), s.chars()
        if i < 0 or i + len(b) > len(a):
            return False
        return zand([ceq(a[i + j], b[j]) for j in range(len(b))])

    def _contains(self, s):
        a, b = self.chars(), s.chars()
        return zor([self._at(i, s) for i in range(len(a) - len(b) + 1)])

    # -- methods --------------------------------------------------------------
    def startswith(self, p, start=0, end=None):
        if start or end is not None:
            return mk(self[start:end]).startswith(p)
        if type(p) is tuple:
            return sor(*[self.startswith(q) for q in p])
        return mkbool(self._at(0, lift(p)))

    def endswith(self, p, start=0, end=None):
        if start or end is not None:
            return mk(self[start:end]).endswith(p)
        if type(p) is tuple:
            return sor(*[self.endswith(q) for q in p])
        p = lift(p)
        return mkbool(self._at(len(self) - len(p), p))

    def find(self, sub, start=0, end=None):
        s = lift(sub)
        n = len(self)
        start, end, _ = slice(start, end).indices(n)
        for i in range(start, end - len(s) + 1):
            if bool(mkbool(self._at(i, s))):
                return i
        return -1

    def index(self, *a):
        r = self.find(*a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rfind(self, sub, start=0, end=None):
        s = lift(sub)
        start, end, _ = slice(start, end).indices(len(self))
        for i in range(end - len(s), start - 1, -1):
            if bool(mkbool(self._at(i, s))):
                return i
        return -1

    def rindex(self, *a):
        r = self.rfind(*a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub, *a):
        s = lift(sub)
        if a:
            return mk(self[slice(*a)]).count(sub)
        i = n = 0
        if len(s) == 0:
            return len(self) + 1
        while i <= len(self) - len(s):
            if bool(mkbool(self._at(i, s))):
                n += 1
                i += len(s)
            else:
                i += 1
        return n

    def replace(self, old, new, count=-1):
        o, n = lift(old), lift(new)
        c = self.chars()
        out, i = [], 0
        if len(o) == 0:
            raise Unsupported('replace of empty string')
        while i < len(c):
            if count != 0 and bool(mkbool(self._at(i, o))):
                out.extend(n.chars())
                i += len(o)
                count -= 1
            else:
                out.append(c[i])
                i += 1
        return mkstr(out)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            out, cur, c = [], [], self.chars()
            i = 0
            while i < len(c):
                if bool(mkbool(isspace(c[i]))):
                    if cur:
                        out.append(mkstr(cur))
                        cur = []
                        if maxsplit == 0:
                            pass
                elif maxsplit == 0 and not cur:
                    rest = mk(mkstr(c[i:])).rstrip()
                    out.append(rest)
                    return out
                else:
                    if not cur:
                        maxsplit -= 1
                    cur.append(c[i])
                i += 1
            if cur:
                out.append(mkstr(cur))
            return out
        s = lift(sep)
        out, rest = [], self
        while maxsplit != 0:
            i = mk(rest).find(s)
            if i < 0:
                break
            out.append(rest[:i])
            rest = rest[i + len(s):]
            maxsplit -= 1
        out.append(rest)
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            if maxsplit < 0:
                return self.split()
            raise Unsupported('rsplit(None, n)')
        s = lift(sep)
        out, rest = [], self
        while maxsplit != 0:
            i = mk(rest).rfind(s)
            if i < 0:
                break
            out.insert(0, rest[i + len(s):])
            rest = rest[:i]
            maxsplit -= 1
        out.insert(0, rest)
        return out

    def splitlines(self, *a):
        raise Unsupported('splitlines')

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, '', '')
        return (self[:i], sep, self[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ('', '', self)
        return (self[:i], sep, self[i + len(sep):])

    def _stripset(self, chars):
        if chars is None:
            return isspace
        cs = lift(chars).chars()
        return lambda c: zor([ceq(c, x) for x in cs])

    def lstrip(self, chars=None):
        f, c, i = self._stripset(chars), self.chars(), 0
        while i < len(c) and bool(mkbool(f(c[i]))):
            i += 1
        return mkstr(c[i:])

    def rstrip(self, chars=None):
        f, c = self._stripset(chars), self.chars()
        i = len(c)
        while i > 0 and bool(mkbool(f(c[i - 1]))):
            i -= 1
        return mkstr(c[:i])

    def strip(self, chars=None):
        return mk(self.lstrip(chars)).rstrip(chars)

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if len(p) and self.endswith(p) else self

    def join(self, xs):
        return sjoin(self, xs)

    def _ascii_only(self):
        for c in self.chars():
            if not isinstance(c, int) and not eng().branch(cin(c, 0, 127)):
                raise Unsupported('case mapping of non-ASCII')

    def lower(self):
        self._ascii_only()
        return mkstr([ord(chr(c).lower()) if isinstance(c, int) else
                      z3.If(cin(c, 65, 90), c + 32, c) for c in self.chars()])

    casefold = lower

    def upper(self):
        self._ascii_only()
        return mkstr([ord(chr(c).upper()) if isinstance(c, int) else
                      z3.If(cin(c, 97, 122), c - 32, c) for c in self.chars()])

    def _all(self, f, empty=False):
        c = self.chars()
        if not c:
            return empty
        self._ascii_only()
        return mkbool(zand([f(x) for x in c]))

    def isascii(self):
        return mkbool(zand([cin(c, 0, 127) for c in self.chars()]))

    def isdigit(self):
        return self._all(isdigit)

    isdecimal = isnumeric = isdigit

    def isalpha(self):
        return self._all(isalpha)

    def isalnum(self):
        return self._all(lambda c: zor([isalpha(c), isdigit(c)]))

    def isspace(self):
        return self._all(isspace)

    def isupper(self):
        raise Unsupported('isupper')

    islower = istitle = isupper

    def isidentifier(self):
        raise Unsupported('isidentifier')

    def isprintable(self):
        return self._all(lambda c: cin(c, 32, 126), True)

    def zfill(self, n):
        if self.symlen() >= n:
            return self
        c = self.chars()
        if c and bool(mkbool(zor([ceq(c[0], 43), ceq(c[0], 45)]))):
            return mkstr(c[:1] + [48] * (n - len(c)) + c[1:])
        return mkstr([48] * (n - len(c)) + c)

    def rjust(self, n, fill=' '):
        return mkstr([ord(fill)] * max(0, n - len(self)) + self.chars())

    def ljust(self, n, fill=' '):
        return mkstr(self.chars() + [ord(fill)] * max(0, n - len(self)))

    def format(self, *a, **k):
        raise Unsupported('symbolic format string')

    def translate(self, t):
        raise Unsupported('translate')

    def encode(self, encoding='utf-8', errors='strict'):
        enc = encoding.lower().replace('_', '-')
        if enc not in ('utf-8', 'utf8', 'ascii', 'latin-1', 'iso-8859-1'):
            raise Unsupported('encode(%r)' % encoding)
        out = []
        e = eng()
        for c in self.chars():
            if isinstance(c, int):
                out.extend(chr(c).encode(encoding, errors))
                continue
            if e.branch(c < 0x80):
                out.append(c)
            elif enc not in ('utf-8', 'utf8'):
                if enc in ('latin-1', 'iso-8859-1') and e.branch(c < 0x100):
                    out.append(c)
                    continue
                if errors != 'strict':
                    raise Unsupported('encode errors=')
                raise UnicodeEncodeError(encoding, '?', 0, 1, 'ordinal not in range')
            elif e.branch(c < 0x800):
                out += [0xC0 + c / 64, 0x80 + c % 64]
            elif e.branch(c < 0x10000):
                if e.branch(z3.And(c >= 0xD800, c <= 0xDFFF)):
                    raise UnicodeEncodeError('utf-8', '?', 0, 1, 'surrogates not allowed')
                out += [0xE0 + c / 4096, 0x80 + (c / 64) % 64, 0x80 + c % 64]
            else:
                out += [0xF0 + c / 262144, 0x80 + (c / 4096) % 64,
                        0x80 + (c / 64) % 64, 0x80 + c % 64]
        return mkbytes(out)


def mk(x):
    """view any str (real or symbolic) as SymStr so that its methods fork"""
    return lift(x)


def isdigit(c):
    return cin(c, 48, 57)


def isalpha(c):
    return zor([cin(c, 65, 90), cin(c, 97, 122)])


def isspace(c):
    # str.isspace over ASCII
    return zor([cin(c, 9, 13), cin(c, 28, 32)])


def expand_atom(a):
    e = eng()
    t = z3.simplify(a.t)
    if z3.is_int_value(t):
        return [ord(x) for x in format(t.as_long(), '0%dd' % a.width if a.width else 'd')]
    out = []
    neg = e.branch(t < 0)
    if neg:
        t = -t
        out.append(45)
    n, lim = 1, 10
    if a.width > 1 and not neg and e.branch(t < 10 ** a.width):
        # zero-padded to the full width: no need to know the number of digits
        n, lim = a.width, 10 ** a.width
    while not e.branch(t < lim):
        n, lim = n + 1, lim * 10
        if n > 25:
            raise Unsupported('decimal rendering of an unbounded integer')
    digits = []
    if n > 2:
        # digits as fresh variables: t = sum(d_i * 10^i) has exactly one solution
        e.fresh_n += 1
        ds = [z3.Int('!dig%d_%d' % (e.fresh_n, i)) for i in range(n)]
        e.assume(z3.And(*[z3.And(d >= 0, d <= 9) for d in ds],
                        z3.Sum([d * 10 ** i for i, d in enumerate(ds)]) == t))
        width = a.width - (1 if neg else 0)
        return out + [48] * max(0, width - n) + [48 + d for d in reversed(ds)]
    for i in range(n - 1, -1, -1):
        p = 10 ** i
        d = z3.simplify(((t / p) if p > 1 else t) % 10)
        digits.append(z3.simplify(48 + d))
    width = a.width - (1 if neg else 0)
    digits = [48] * max(0, width - n) + digits
    return out + [(d.as_long() if z3.is_int_value(d) else d) for d in digits]


def to_str(x):
    """str(x) for possibly symbolic x"""
    t = type(x)
    if t is SymStr:
        return x
    if t is SymInt:
        return SymStr([Atom(x.t)])
    if t is SymBool:
        return 'True' if bool(x) else 'False'
    if t is SymReal:
        # text of a float is abbreviated: messages only (a check that depends on
        # it fails here and is then decided on the real code by the replay)
        return '<float>'
    return str(x)


def has_sym(x, depth=4):
    if not LIVE[0]:
        return False
    if is_sym(x):
        return True
    if depth and type(x) in (list, tuple, set, frozenset):
        return any(has_sym(i, depth - 1) for i in x)
    if depth and type(x) is dict:
        return any(has_sym(k, depth - 1) or has_sym(v, depth - 1) for k, v in x.items())
    return False


def sym_repr(x):
    t = type(x)
    if t is SymStr:
        # quoting/escaping not modelled: only used inside messages
        return mkstr([39] + x._p + [39])
    if is_sym(x):
        return to_str(x)
    if t in (list, tuple) and has_sym(x):
        parts = [sym_repr(i) for i in x]
        body = sjoin(', ', parts)
        if t is list:
            return '[' + mk(body) + ']' if parts else '[]'
        return '(' + mk(body) + (',)' if len(parts) == 1 else ')')
    if t is dict and has_sym(x):
        parts = [mk(sym_repr(k)) + ': ' + sym_repr(v) for k, v in x.items()]
        return '{' + mk(sjoin(', ', parts)) + '}'
    if t in (set, frozenset) and has_sym(x):
        return '{' + mk(sjoin(', ', [sym_repr(i) for i in x])) + '}'
    return repr(x)


def sjoin(sep, xs):
    xs = list(xs)
    out = []
    s = lift(sep)._p
    for i, x in enumerate(xs):
        if not isinstance(x, str):
            raise TypeError('sequence item %d: expected str instance, %s found'
                            % (i, x.__class__.__name__))
        if i:
            out = out + s
        out = out + lift(x)._p
    return mkstr(out)


def sformat(x, spec=''):
    """format(x, spec) for possibly symbolic x"""
    t = type(x)
    if not is_sym(x):
        if has_sym(x):
            if spec:
                raise Unsupported('format spec on container')
            return sym_repr(x)
        if is_sym(spec):
            raise Unsupported('symbolic format spec')
        return format(x, spec)
    if spec in ('', 's') and t is SymStr:
        return x
    if spec == '':
        return to_str(x)
    if t is SymInt:
        if spec in ('d', 'n'):
            return to_str(x)
        s = spec[:-1] if spec.endswith('d') else spec
        if s.isdigit() and s.startswith('0'):
            return SymStr([Atom(x.t, int(s))])
        if s.isdigit():
            return mk(to_str(x)).rjust(int(s))
    raise Unsupported('format spec %r on %s' % (spec, t.__name__))


def parse_int(x, base=10):
    """int(SymStr)"""
    if base != 10:
        raise Unsupported('int(s, base)')
    if len(x._p) == 1 and type(x._p[0]) is Atom:
        return mkint(x._p[0].t)
    s = mk(mk(x).strip())
    c = s.chars()
    sign = 1
    if c and bool(mkbool(ceq(c[0], 45))):
        sign, c = -1, c[1:]
    elif c and bool(mkbool(ceq(c[0], 43))):
        c = c[1:]
    if not c or not bool(mkbool(zand([isdigit(d) for d in c]))):
        # underscores between digits are legal in int() but not modelled
        if any(not isinstance(d, int) for d in c) and bool(mkbool(zor([ceq(d, 95) for d in c]))):
            raise Unsupported('int() of a string with underscores')
        raise ValueError('invalid literal for int() with base 10')
    v = I(0)
    for d in c:
        v = v * 10 + (d - 48)
    return mkint(sign * v)


# --------------------------------------------------------------------------


def mkbytes(items):
    if all(isinstance(b, int) for b in items):
        return bytes(items)
    return SymBytes(items)


class SymBytes(Sym):
    __slots__ = ('_p',)
    __class__ = property(lambda self: bytes)

    def __init__(self, p):
        LIVE[0] = True
        self._p = list(p)

    def __len__(self):
        return len(self._p)

    def __bool__(self):
        return bool(self._p)

    def __hash__(self):
        return 0x54

    def __iter__(self):
        return (b if isinstance(b, int) else mkint(b) for b in list(self._p))

    def __getitem__(self, k):
        if isinstance(k, slice):
            return mkbytes(self._p[k])
        b = self._p[int(k)]
        return b if isinstance(b, int) else mkint(b)

    def __eq__(self, o):
        if type(o) is bytes:
            o = SymBytes(o)
        if type(o) is not SymBytes:
            return NotImplemented
        if len(o) != len(self):
            return False
        return mkbool(zand([ceq(a, b) for a, b in zip(self._p, o._p)]))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def __add__(self, o):
        return mkbytes(self._p + list(o._p if type(o) is SymBytes else o))

    def __radd__(self, o):
        return mkbytes(list(o) + self._p)

    def __repr__(self):
        raise Unsupported('repr of symbolic bytes')

    def decode(self, encoding='utf-8', errors='strict'):
        if not eng().branch(zand([cin(b, 0, 127) for b in self._p])):
            raise Unsupported('decode of non-ASCII bytes')
        return mkstr(self._p)


def from_bytes(b, byteorder='big', *, signed=False):
    if signed:
        raise Unsupported('signed from_bytes')
    seq = list(b._p) if type(b) is SymBytes else list(b)
    if byteorder == 'little':
        seq = seq[::-1]
    elif byteorder != 'big':
        raise ValueError("byteorder must be either 'little' or 'big'")
    v = I(0)
    for x in seq:
        v = v * 256 + (intterm(x) if is_sym(x) else x)
    return mkint(v)
