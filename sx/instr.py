"""Import hook: loads the modules under test (from /repo's current source) with
the handful of Python operations that C code would otherwise decide on its own
routed through the engine (calls to builtins, `in`, subscripts, f-strings,
%-formatting, dict/set displays).  Everything else is the unchanged source."""
import ast
import builtins
import collections
import functools
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import ipaddress
import json
import math
import operator
import os
import re
import sys
import time
import types
import urllib.parse
import datetime as _real_datetime

import z3
from .core import eng, Unsupported, LIVE
from . import regex, strings
from .values import (Sym, SymBool, SymInt, SymReal, is_sym, mkbool, mkint, sand, sor,
                     snot, ssqrt, realterm, SymMeta)
from .strings import (SymStr, SymBytes, to_str, sformat, sym_repr, sjoin, parse_int,
                      from_bytes, has_sym, lift, mk, mkstr, mkbytes)

REPO = os.environ.get('SX_REPO', '/repo')
REPO_PACKAGES = ('citrine', 'jsonld', 'activitystreams', 'activitypub')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

DICTLIKE = (dict, collections.UserDict)
SETLIKE = (set, frozenset, type({}.keys()), collections.abc.KeysView)

# --------------------------------------------------------------------------
# keys


SYM_KEYS = frozenset([SymBool, SymInt, SymReal, SymStr, SymBytes, tuple])


def _keys_have_sym(c):
    if not LIVE[0] or SYM_KEYS.isdisjoint(map(type, c)):
        return False
    for k in c:
        if is_sym(k):
            return True
        if type(k) is tuple and has_sym(k):
            return True
    return False


def norm_key(c, k):
    """The key object of container c that equals k on this path (forking), or k
    itself when no key equals it."""
    if not (has_sym(k) or _keys_have_sym(c)):
        return k
    for x in list(c):
        if x is k:
            return x
    for x in list(c):
        r = x == k
        if r is not NotImplemented and r:
            return x
    return k


def _is_dictlike(o):
    return isinstance(o, DICTLIKE) and not is_sym(o)


def sx_contains(c, item):
    if not LIVE[0]:
        return item in c
    if _is_dictlike(c) or type(c) in (set, frozenset) or isinstance(c, collections.abc.KeysView):
        if has_sym(item) or _keys_have_sym(c):
            k = norm_key(c, item)
            return any(x is k for x in c)
        return item in c
    if isinstance(c, str):
        if is_sym(item) or is_sym(c):
            return mk(c).__contains__(item)
        return item in c
    return item in c


def sx_not_contains(c, item):
    return not sx_contains(c, item)


def sx_is(a, b):
    if type(a) is SymBool and isinstance(b, bool) and not is_sym(b):
        return bool(a) is b
    if type(b) is SymBool and isinstance(a, bool) and not is_sym(a):
        return bool(b) is a
    return a is b


def sx_is_not(a, b):
    return not sx_is(a, b)


def sx_getitem(o, k):
    if _is_dictlike(o):
        if has_sym(k) or _keys_have_sym(o):
            return o[norm_key(o, k)]
        return o[k]
    if type(k) is SymInt and type(o) in (list, tuple) and o and \
            all(type(x) is int for x in o):
        e = eng()
        n = len(o)
        if not e.branch(z3.And(k.t >= -n, k.t < n)):
            raise IndexError('list index out of range')
        i = k if not e.branch(k.t < 0) else k + n
        if not is_sym(i):
            return o[i]
        t = z3.IntVal(o[-1])
        for j in range(n - 2, -1, -1):
            t = z3.If(i.t == j, z3.IntVal(o[j]), t)
        return mkint(t)
    if isinstance(o, str) and not is_sym(o) and isinstance(k, slice) and \
            (is_sym(k.start) or is_sym(k.stop)):
        return mk(o)[k]
    return o[k]


def sx_setitem(o, k, v):
    if _is_dictlike(o) and (has_sym(k) or _keys_have_sym(o)):
        o[norm_key(o, k)] = v
    else:
        o[k] = v


def sx_delitem(o, k):
    if _is_dictlike(o) and (has_sym(k) or _keys_have_sym(o)):
        del o[norm_key(o, k)]
    else:
        del o[k]


def sx_dict(pairs):
    d = {}
    for k, v in pairs:
        if k is _SPREAD:
            if hasattr(v, 'keys'):
                for kk in v.keys():
                    sx_setitem(d, kk, v[kk])
            else:
                d = {**d, **v}
        else:
            sx_setitem(d, k, v)
    return d


def sx_set(items):
    items = list(items)
    if not has_sym(items, 2):
        return set(items)
    s = set()
    for i in items:
        if not sx_contains(s, i):
            s.add(i)
    return s


_SPREAD = object()


def sx_fstr(*parts):
    out = ''
    for p in parts:
        out = out + p if isinstance(out, str) else out
    return out


def sx_fmt(v, conv, spec):
    if conv == 114:
        v = sym_repr(v)
    elif conv == 115:
        v = to_str(v)
    elif conv == 97:
        v = ascii(v)
    return sformat(v, spec)


def sx_mod(a, b):
    if isinstance(a, str) and not is_sym(a) and has_sym(b):
        return percent(a, b)
    return a % b


def percent(fmt, args):
    arglist = list(args) if type(args) is tuple else None
    out, i, n = '', 0, 0
    spec_re = re.compile(r'%(?:\((\w+)\))?([#0\- +]*)(\d+)?(?:\.(\d+))?([a-zA-Z%])')
    for m in spec_re.finditer(fmt):
        out = out + fmt[i:m.start()]
        i = m.end()
        name, flags, width, prec, conv = m.groups()
        if conv == '%':
            out = out + '%'
            continue
        if name:
            v = sx_getitem(args, name)
        elif arglist is None:
            v = args
        else:
            v = arglist[n]
            n += 1
        if not has_sym(v):
            one = re.sub(r'\(\w+\)', '', m.group(0))
            out = out + one % (v,)
        elif conv == 's' and not width and not prec:
            out = out + (sym_repr(v) if not is_sym(v) else to_str(v))
        elif conv == 'r':
            out = out + sym_repr(v)
        elif conv in 'di' and type(v) in (SymInt, SymBool) and not prec:
            if not width:
                out = out + to_str(v)
            elif '0' in flags:
                out = out + sformat(v, '0%sd' % width)
            else:
                out = out + sformat(v, width)
        else:
            raise Unsupported('%%-format %s' % m.group(0))
    return out + fmt[i:]


# --------------------------------------------------------------------------
# calls

HANDLERS = {}


def handles(*fns):
    def deco(h):
        for f in fns:
            HANDLERS[f] = h
        return h
    return deco


def anysym(args, kw):
    for a in args:
        if is_sym(a):
            return True
    for a in kw.values():
        if is_sym(a):
            return True
    return False


def deepsym(args, kw):
    return has_sym(list(args), 4) or has_sym(list(kw.values()), 4)


def _callable_key(f):
    try:
        return HANDLERS.get(f)
    except TypeError:
        return None


BUILTIN_METHODS = (type([].append), type(re.compile('').match))
METHOD_WRAPPER = type([].__len__)


def sx_call(f, /, *args, **kw):
    h = _callable_key(f)
    if h is not None:
        return h(f, args, kw)
    t = type(f)
    if t in BUILTIN_METHODS:
        if not LIVE[0]:
            return f(*args, **kw)
        recv = f.__self__
        if recv is not None and type(recv) is not types.ModuleType:
            return builtin_method(f, recv, args, kw)
    elif t is types.MethodType and isinstance(f.__self__, collections.UserDict):
        name = f.__name__
        if name in ('get', 'pop', 'setdefault', '__getitem__', '__contains__',
                    '__setitem__', '__delitem__') and args and \
                (has_sym(args[0]) or _keys_have_sym(f.__self__)):
            return f(norm_key(f.__self__, args[0]), *args[1:], **kw)
    return f(*args, **kw)


def builtin_method(f, recv, args, kw):
    name = f.__name__
    rt = type(recv)
    if isinstance(recv, dict):
        if name in ('get', 'pop', 'setdefault', '__getitem__', '__contains__',
                    '__setitem__', '__delitem__'):
            if args and (has_sym(args[0]) or _keys_have_sym(recv)):
                k = norm_key(recv, args[0])
                return f(k, *args[1:], **kw)
        elif name == 'update':
            src = [args[0]] if args else []
            for s in src:
                items = [(k, s[k]) for k in s.keys()] if hasattr(s, 'keys') else list(s)
                if any(has_sym(k) for k, _ in items) or _keys_have_sym(recv):
                    for k, v in items:
                        sx_setitem(recv, k, v)
                    for k, v in kw.items():
                        sx_setitem(recv, k, v)
                    return None
                if not hasattr(s, 'keys'):
                    args = (items,)
        return f(*args, **kw)
    if rt is set:
        if name in ('update', 'union', 'difference', 'intersection'):
            args = tuple(a if isinstance(a, collections.abc.Sized) else list(a) for a in args)
        if name in ('add', 'discard', 'remove') and args and \
                (has_sym(args[0]) or _keys_have_sym(recv)):
            return f(norm_key(recv, args[0]))
        if name in ('update', 'union', 'difference', 'intersection') and \
                (deepsym(args, kw) or _keys_have_sym(recv)):
            if name == 'update':
                for a in args:
                    for i in a:
                        recv.add(norm_key(recv, i))
                return None
            if name == 'union':
                r = sx_set(recv)
                for a in args:
                    for i in a:
                        r.add(norm_key(r, i))
                return r
            if name == 'difference':
                return sx_set(i for i in recv if not any(sx_contains(set(a), i) for a in args))
            return sx_set(i for i in recv if all(sx_contains(set(a), i) for a in args))
        return f(*args, **kw)
    if rt is str:
        if deepsym(args, kw):
            if name == 'join':
                return sjoin(recv, args[0])
            if name == 'format':
                return str_format(recv, args, kw)
            m = getattr(SymStr, name, None)
            if m is None:
                raise Unsupported('str.%s' % name)
            return m(lift(recv), *args, **kw)
        if name == 'join' and args and not isinstance(args[0], (list, tuple, str)):
            return sjoin(recv, list(args[0]))
        return f(*args, **kw)
    if rt is bytes and anysym(args, kw):
        raise Unsupported('bytes.%s' % name)
    if isinstance(recv, re.Pattern):
        if args and is_sym(args[0]):
            if name in ('match', 'search', 'fullmatch'):
                return regex.run(recv, args[0], name, *args[1:2])
            if name == 'findall':
                ms = regex.findall(recv, args[0])
                return [m.group() if m.prog.ngroups == 1 else
                        (m.group(1) if m.prog.ngroups == 2 else m.groups()) for m in ms]
            if name == 'finditer':
                return iter(regex.findall(recv, args[0]))
            if name == 'split':
                return regex.split(recv, args[0])
        if name == 'sub' and len(args) > 1 and (is_sym(args[1]) or is_sym(args[0])):
            return regex.sub(recv, args[0], args[1])
        return f(*args, **kw)
    return f(*args, **kw)


def str_format(fmt, args, kw):
    import string
    out, n = '', 0
    for lit, name, spec, conv in string.Formatter().parse(fmt):
        out = out + lit
        if name is None:
            continue
        if name == '' or name.isdigit():
            v = args[n if name == '' else int(name)]
            n += 1
        elif name.isidentifier():
            v = kw[name]
        else:
            raise Unsupported('format field %r' % name)
        out = out + sx_fmt(v, ord(conv) if conv else -1, spec or '')
    return out


@handles(str)
def _h_str(f, a, kw):
    if len(a) == 1 and not kw:
        if is_sym(a[0]):
            return to_str(a[0])
        if type(a[0]) in (list, tuple, dict, set) and has_sym(a[0]):
            return sym_repr(a[0])
    if a and type(a[0]) is SymBytes:
        return a[0].decode(*a[1:], **kw)
    return f(*a, **kw)


@handles(repr, ascii)
def _h_repr(f, a, kw):
    return sym_repr(a[0]) if has_sym(a[0]) else f(*a)


@handles(format)
def _h_format(f, a, kw):
    return sformat(*a) if anysym(a, kw) else f(*a, **kw)


@handles(len)
def _h_len(f, a, kw):
    if len(a) == 1 and type(a[0]) is SymStr:
        return a[0].symlen()
    return f(*a, **kw)


@handles(int)
def _h_int(f, a, kw):
    if a and is_sym(a[0]):
        x = a[0]
        if type(x) is SymStr:
            return parse_int(x, *a[1:], **kw)
        if type(x) is SymInt:
            return x
        if type(x) is SymBool:
            return x._i()
        if type(x) is SymReal:
            return x.__trunc__()
        raise Unsupported('int(%s)' % type(x).__name__)
    return f(*a, **kw)


@handles(int.from_bytes)
def _h_from_bytes(f, a, kw):
    if anysym(a, kw):
        return from_bytes(*a, **kw)
    return f(*a, **kw)


@handles(float)
def _h_float(f, a, kw):
    if a and is_sym(a[0]):
        x = a[0]
        if type(x) is SymReal:
            return x
        if type(x) in (SymInt, SymBool):
            return SymReal(realterm(x))
        raise Unsupported('float(%s)' % type(x).__name__)
    return f(*a, **kw)


@handles(bool)
def _h_bool(f, a, kw):
    if a and is_sym(a[0]):
        if type(a[0]) is SymBool:
            return a[0]
        return bool(a[0])
    return f(*a, **kw)


@handles(type)
def _h_type(f, a, kw):
    if len(a) == 1 and not kw and is_sym(a[0]):
        return a[0].__class__
    return f(*a, **kw)


@handles(operator.index)
def _h_index(f, a, kw):
    if type(a[0]) is SymInt:
        return a[0]
    return f(*a, **kw)


@handles(math.sqrt)
def _h_sqrt(f, a, kw):
    return ssqrt(a[0]) if is_sym(a[0]) else f(*a)


@handles(math.isqrt)
def _h_isqrt(f, a, kw):
    from .values import isqrt
    return isqrt(a[0]) if is_sym(a[0]) else f(*a)


@handles(math.ceil, math.floor, math.trunc, round, abs)
def _h_round(f, a, kw):
    return f(*a, **kw)


@handles(math.modf)
def _h_modf(f, a, kw):
    if is_sym(a[0]):
        i = a[0].__trunc__()
        return (a[0] - i, float(i) if not is_sym(i) else SymReal(realterm(i)))
    return f(*a)


@handles(math.isnan, math.isinf)
def _h_isnan(f, a, kw):
    return False if is_sym(a[0]) else f(*a)


@handles(math.isfinite)
def _h_isfinite(f, a, kw):
    return True if is_sym(a[0]) else f(*a)


def gen_range(start, stop, step):
    i = start
    while (i < stop) if step > 0 else (i > stop):
        yield i
        i = i + step


class SymRange:
    def __init__(self, start, stop=None, step=1):
        if stop is None:
            start, stop = 0, start
        if step == 0:
            raise ValueError('range() arg 3 must not be zero')
        self.a = (start, stop, step)

    def __iter__(self):
        return gen_range(*self.a)

    def __contains__(self, x):
        a, b, s = self.a
        if s == 1:
            return bool(x >= a) and bool(x < b)
        return any(i == x for i in self)

    def __len__(self):
        return sum(1 for _ in self)

    def __getitem__(self, k):
        return list(self)[k]


@handles(range)
def _h_range(f, a, kw):
    return SymRange(*a) if anysym(a, kw) else f(*a)


@handles(chr)
def _h_chr(f, a, kw):
    return mkstr([a[0].t]) if is_sym(a[0]) else f(*a)


@handles(ord)
def _h_ord(f, a, kw):
    if type(a[0]) is SymStr:
        c = a[0].chars()
        if len(c) != 1:
            raise TypeError('ord() expected a character')
        return mkint(c[0])
    return f(*a)


@handles(dict)
def _h_dict(f, a, kw):
    if a and not isinstance(a[0], collections.abc.Mapping):
        a = (list(a[0]),) + a[1:]
        if any(has_sym(p[0]) for p in a[0]):
            return sx_dict(list(a[0]) + list(kw.items()))
    return f(*a, **kw)


@handles(set, frozenset)
def _h_set(f, a, kw):
    if a:
        items = list(a[0])
        if has_sym(items, 2):
            return sx_set(items) if f is set else frozenset(sx_set(items))
        return f(items)
    return f()


@handles(collections.Counter)
def _h_counter(f, a, kw):
    if a and deepsym(a, kw):
        raise Unsupported('Counter')
    return f(*a, **kw)


def _re_args(a, kw, n):
    names = ('pattern', 'string') if n == 2 else ('pattern', 'repl', 'string')
    a = list(a)
    for nm in names[len(a):]:
        if nm in kw:
            a.append(kw.pop(nm))
    return a, kw


@handles(re.match, re.search, re.fullmatch)
def _h_re(f, a, kw):
    if anysym(a, kw):
        a, kw = _re_args(a, dict(kw), 2)
        fl = a[2] if len(a) > 2 else kw.get('flags', 0)
        if is_sym(a[0]):
            raise Unsupported('symbolic pattern')
        return regex.run(a[0], a[1], f.__name__, 0, fl)
    return f(*a, **kw)


@handles(re.findall, re.finditer, re.split)
def _h_refind(f, a, kw):
    if anysym(a, kw):
        p = re.compile(a[0], a[2] if len(a) > 2 else 0) if not isinstance(a[0], re.Pattern) else a[0]
        return builtin_method(getattr(p, f.__name__), p, (a[1],), {})
    return f(*a, **kw)


@handles(re.sub)
def _h_resub(f, a, kw):
    if anysym(a, kw):
        return regex.sub(a[0], a[1], a[2])
    return f(*a, **kw)


# JSON text is modelled as an opaque carrier of the encoded value: the json
# module itself is trusted to be a faithful codec


class JsonText(str):
    """Result of json.dumps on data holding symbolic values."""
    def __new__(cls, value, kw):
        o = str.__new__(cls, '<json>')
        o.value, o.kw = value, kw
        return o


def json_model(v):
    """What json.loads(json.dumps(v)) returns; TypeError as json.dumps raises."""
    if v is None or isinstance(v, (str, bool, int, float)):
        return v
    if isinstance(v, (list, tuple)) and not is_sym(v):
        return [json_model(i) for i in v]
    if isinstance(v, dict):
        out = {}
        for k, x in v.items():
            if not isinstance(k, str):
                if k is None or isinstance(k, (bool, int, float)):
                    if is_sym(k):
                        raise Unsupported('symbolic non-string JSON key')
                    k = {None: 'null', True: 'true', False: 'false'}.get(k, None) or str(k)
                else:
                    raise TypeError('keys must be str, int, float, bool or None, not %s'
                                    % type(k).__name__)
            sx_setitem(out, k, json_model(x))
        return out
    raise TypeError('Object of type %s is not JSON serializable' % type(v).__name__)


@handles(json.dumps)
def _h_dumps(f, a, kw):
    if has_sym(a[0], 12):
        if kw.get('default') or kw.get('cls'):
            raise Unsupported('json.dumps(default/cls)')
        return JsonText(json_model(a[0]), kw)
    return f(*a, **kw)


@handles(json.loads)
def _h_loads(f, a, kw):
    if type(a[0]) is JsonText:
        return json_model(a[0].value)
    if is_sym(a[0]):
        raise Unsupported('json.loads of symbolic text')
    return f(*a, **kw)


def concrete_name(obj, name):
    """the attribute of obj that the symbolic text names, or None"""
    for n in dir(obj):
        if name == n:
            return n
    return None


@handles(getattr, hasattr)
def _h_getattr(f, a, kw):
    if len(a) > 1 and type(a[1]) is SymStr:
        n = concrete_name(a[0], a[1])
        if n is not None:
            return f(a[0], n, *a[2:])
        if hasattr(type(a[0]), '__getattr__'):
            raise Unsupported('attribute with a symbolic name')
        if f is hasattr:
            return False
        if len(a) > 2:
            return a[2]
        raise AttributeError('no such attribute')
    return f(*a, **kw)


@handles(setattr, delattr)
def _h_setattr(f, a, kw):
    if len(a) > 1 and type(a[1]) is SymStr:
        n = concrete_name(a[0], a[1])
        if n is None:
            raise Unsupported('attribute with a symbolic name')
        return f(a[0], n, *a[2:])
    return f(*a, **kw)


@handles(hash)
def _h_hash(f, a, kw):
    if has_sym(a[0]):
        raise Unsupported('hash() value used')
    return f(*a)


@handles(time.strftime)
def _h_strftime(f, a, kw):
    if len(a) == 2 and has_sym(list(a[1])):
        return strftime_model(a[0], list(a[1]))
    return f(*a, **kw)


def strftime_model(fmt, t):
    """glibc strftime for the numeric directives (C locale, %Y unpadded)."""
    out, i = '', 0
    one = {'m': 1, 'd': 2, 'H': 3, 'M': 4, 'S': 5}
    while i < len(fmt):
        c = fmt[i]
        if c != '%':
            out = out + c
            i += 1
            continue
        i += 1
        c = fmt[i]
        i += 1
        if c == 'Y':
            out = out + to_str(t[0])
        elif c in one:
            out = out + sformat(t[one[c]], '02d')
        elif c == 'y':
            out = out + sformat(t[0] % 100, '02d')
        elif c == 'j':
            out = out + sformat(t[7], '03d')
        elif c == 'F':
            out = out + strftime_model('%Y-%m-%d', t)
        elif c == 'T':
            out = out + strftime_model('%H:%M:%S', t)
        elif c == '%':
            out = out + '%'
        else:
            raise Unsupported('strftime directive %%%s' % c)
    return out


def _sym_module_call(modname, fname):
    def h(f, a, kw):
        if anysym(a, kw):
            return getattr(sym_module(modname), fname)(*a, **kw)
        return f(*a, **kw)
    return h


@handles(os.fspath)
def _h_fspath(f, a, kw):
    return a[0] if is_sym(a[0]) else f(*a, **kw)


@handles(map)
def _h_map(f, a, kw):
    fn, its = a[0], a[1:]
    return (sx_call(fn, *xs) for xs in zip(*its))


@handles(filter)
def _h_filter(f, a, kw):
    fn, it = a
    return (x for x in it if (sx_call(fn, x) if fn is not None else x))


def normpath_model(path):
    """posixpath.normpath (CPython's pure Python version)"""
    if not path:
        return '.'
    n = 0
    if path.startswith('/'):
        n = 2 if path.startswith('//') and not path.startswith('///') else 1
    comps = []
    for c in path.split('/'):
        if not c or c == '.':
            continue
        if c != '..' or (not n and not comps) or (comps and comps[-1] == '..'):
            comps.append(c)
        elif comps:
            comps.pop()
    out = sjoin('/', comps)
    return ('/' * n + out) or '.'


@handles(os.path.normpath)
def _h_normpath(f, a, kw):
    return normpath_model(a[0]) if anysym(a, kw) else f(*a, **kw)


for _n in ('join', 'split', 'basename', 'dirname', 'isabs', 'splitext'):
    HANDLERS[getattr(os.path, _n)] = _sym_module_call('posixpath', _n)


for _n in ('urlparse', 'urlsplit', 'urlunparse', 'urlunsplit', 'urljoin', 'quote',
           'unquote', 'urldefrag', 'parse_qs', 'parse_qsl'):
    HANDLERS[getattr(urllib.parse, _n)] = _sym_module_call('urllib.parse', _n)

HANDLERS[ipaddress.ip_address] = _sym_module_call('ipaddress', 'ip_address')

# functions that inspect their caller's frame must be called directly
DIRECT_NAMES = {'super', 'locals', 'globals', 'vars', 'eval', 'exec', 'dir'}


class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.in_ann = 0

    @staticmethod
    def _name(n):
        return ast.Name(id=n, ctx=ast.Load())

    def _c(self, fn, *args):
        return ast.Call(func=self._name(fn), args=list(args), keywords=[])

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node

    def visit_FunctionDef(self, node):
        ret = node.returns
        node.returns = None
        self.generic_visit(node)
        node.returns = ret
        if node.name == '__bool__':
            # CPython insists on a real bool here
            for r in ast.walk(node):
                if isinstance(r, ast.Return) and r.value is not None:
                    r.value = ast.copy_location(self._c('bool', r.value), r.value)
        node.decorator_list = [
            d if isinstance(d, ast.Call) else
            (ast.copy_location(self._c('__sx_deco__', d), d)
             if isinstance(d, (ast.Name, ast.Attribute)) and
             (getattr(d, 'id', None) or getattr(d, 'attr', None)) in ('lru_cache', 'cache')
             else d) for d in node.decorator_list]
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in DIRECT_NAMES:
            node.args = [self.visit(a) for a in node.args]
            node.keywords = [self.visit(k) for k in node.keywords]
            return node
        self.generic_visit(node)
        return ast.copy_location(
            ast.Call(func=self._name('__sx_call__'), args=[node.func] + node.args,
                     keywords=node.keywords), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op, l, r = node.ops[0], node.left, node.comparators[0]
            fn = {ast.In: '__sx_contains__', ast.NotIn: '__sx_not_contains__'}.get(type(op))
            if fn:
                # keep evaluation order: left operand first
                return ast.copy_location(self._c('__sx_in2__' if fn == '__sx_contains__'
                                                 else '__sx_notin2__', l, r), node)
            if isinstance(op, (ast.Is, ast.IsNot)) and (
                    (isinstance(r, ast.Constant) and isinstance(r.value, bool)) or
                    (isinstance(l, ast.Constant) and isinstance(l.value, bool))):
                return ast.copy_location(self._c(
                    '__sx_is__' if isinstance(op, ast.Is) else '__sx_is_not__', l, r), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            sl = node.slice
            if isinstance(sl, ast.Constant) and isinstance(sl.value, int):
                return node
            if isinstance(sl, ast.Slice):
                parts = [p or ast.Constant(None) for p in (sl.lower, sl.upper, sl.step)]
                sl = self._c('__sx_slice__', *parts)
            return ast.copy_location(self._c('__sx_getitem__', node.value, sl), node)
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript) and \
                not isinstance(node.targets[0].slice, ast.Slice):
            t = node.targets[0]
            return ast.copy_location(ast.Expr(self._c(
                '__sx_setitem2__', node.value, t.value, t.slice)), node)
        return node

    def visit_Delete(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript) and \
                not isinstance(node.targets[0].slice, ast.Slice):
            t = node.targets[0]
            return ast.copy_location(ast.Expr(self._c('__sx_delitem__', t.value, t.slice)), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = self.visit_JoinedStr(v.format_spec) if v.format_spec else ast.Constant('')
                parts.append(self._c('__sx_fmt__', val, ast.Constant(v.conversion), spec))
        return ast.copy_location(self._c('__sx_fstr__', *parts), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(self._c('__sx_mod__', node.left, node.right), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        pairs = [ast.Tuple([k if k is not None else self._name('__sx_SPREAD__'), v],
                           ast.Load()) for k, v in zip(node.keys, node.values)]
        return ast.copy_location(self._c('__sx_dict__', ast.List(pairs, ast.Load())), node)

    @staticmethod
    def _async(node):
        return any(isinstance(x, (ast.Await, ast.Yield, ast.YieldFrom)) or
                   getattr(x, 'is_async', 0) for x in ast.walk(node))

    def visit_DictComp(self, node):
        if self._async(node):
            return node
        self.generic_visit(node)
        gen = ast.GeneratorExp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)
        return ast.copy_location(self._c('__sx_dict__', gen), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(self._c('__sx_set__', ast.List(node.elts, ast.Load())), node)

    def visit_SetComp(self, node):
        if self._async(node):
            return node
        self.generic_visit(node)
        return ast.copy_location(self._c('__sx_set__', ast.GeneratorExp(
            node.elt, node.generators)), node)


def sx_in2(item, c):
    return sx_contains(c, item)


def sx_notin2(item, c):
    return not sx_contains(c, item)


def sx_setitem2(v, o, k):
    sx_setitem(o, k, v)


STRIP_CACHES = functools.lru_cache, functools.cache


def sx_lru_cache(*a, **k):
    if len(a) == 1 and callable(a[0]) and not k:
        return a[0]
    return lambda fn: fn


HANDLERS[functools.lru_cache] = lambda f, a, kw: sx_lru_cache(*a, **kw)
HANDLERS[functools.cache] = lambda f, a, kw: a[0]


def sx_deco(d):
    if d is functools.lru_cache or d is functools.cache:
        return lambda fn: fn
    return d


def sx_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0 and name in SYM_STDLIB and SYM_STDLIB[name].get('replace'):
        return sym_module(name)
    return builtins.__import__(name, globals, locals, fromlist, level)


# standard library modules executed symbolically from their own source
SYM_STDLIB = {
    'datetime': {'file': '_pydatetime.py', 'replace': True},
    '_strptime': {'file': '_strptime.py', 'replace': True},
    'urllib.parse': {'file': 'urllib/parse.py', 'replace': False},
    'ipaddress': {'file': 'ipaddress.py', 'replace': False},
    'posixpath': {'file': 'posixpath.py', 'replace': False},
}
_SYM = {}


def make_builtins(symstd=False):
    b = dict(vars(builtins))
    b.update(__sx_call__=sx_call, __sx_in2__=sx_in2, __sx_notin2__=sx_notin2,
             __sx_is__=sx_is, __sx_is_not__=sx_is_not, __sx_getitem__=sx_getitem,
             __sx_setitem2__=sx_setitem2, __sx_delitem__=sx_delitem,
             __sx_dict__=sx_dict, __sx_set__=sx_set, __sx_SPREAD__=_SPREAD,
             __sx_fstr__=sx_fstr, __sx_fmt__=sx_fmt, __sx_mod__=sx_mod,
             __sx_slice__=slice, __sx_deco__=sx_deco, __import__=sx_import)
    return b


BUILTINS = make_builtins()
ENCODED = {}          # file -> number of functions loaded through the rewriter


def compile_instrumented(source, path):
    tree = ast.parse(source, path)
    n = sum(isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda))
            for x in ast.walk(tree))
    tree = ast.fix_missing_locations(Rewriter().visit(tree))
    ENCODED[path] = n
    return compile(tree, path, 'exec', dont_inherit=True)


def sym_module(name):
    if name in _SYM:
        return _SYM[name]
    cfg = SYM_STDLIB[name]
    path = os.path.join(os.path.dirname(os.__file__), cfg['file'])
    with open(path) as fh:
        src = fh.read()
    mod = types.ModuleType('sx_' + name.replace('.', '_'))
    mod.__dict__['__builtins__'] = BUILTINS
    mod.__file__ = path
    sys.modules[mod.__name__] = mod
    _SYM[name] = mod
    exec(compile_instrumented(src, path), mod.__dict__)
    if name == 'datetime':
        neighbouring_days(mod)
    if name == 'urllib.parse':
        checknetloc(mod)
    return mod


def checknetloc(mod):
    """urllib refuses hosts that get delimiters by NFKC normalisation.  No character
    combines with a delimiter, so this is so exactly when one of the characters
    has a delimiter in its own normal form."""
    import unicodedata
    real = mod._checknetloc
    bad = []
    for c in range(128, 0x110000):
        if not set('/?#@:').isdisjoint(unicodedata.normalize('NFKC', chr(c))):
            bad.append(c)

    def _checknetloc(netloc):
        if not is_sym(netloc) or not netloc or netloc.isascii():
            return real(netloc)
        if eng().branch(strings.zor([strings.ceq(c, b) for c in netloc.chars() for b in bad])):
            raise ValueError('netloc contains invalid characters under NFKC normalization')
    mod._checknetloc = _checknetloc


def neighbouring_days(mod):
    """Days next to one whose ordinal was computed before on the path are found by
    stepping the calendar instead of dividing the ordinal again (the ordinal is a
    bijection, so the result is the same; the divisions are hard for the solver)."""
    ymd2ord, ord2ymd, dim = mod._ymd2ord, mod._ord2ymd, mod._days_in_month

    def _ymd2ord(y, m, d):
        n = ymd2ord(y, m, d)
        if is_sym(n):
            eng().scratch.setdefault('days', []).append((n, y, m, d))
        return n

    def _ord2ymd(n):
        if is_sym(n):
            for n0, y, m, d in eng().scratch.get('days', ()):
                k = n - n0
                if k == 0:
                    return y, m, d
                if k == -1:
                    if d > 1:
                        return y, m, d - 1
                    if m > 1:
                        return y, m - 1, dim(y, m - 1)
                    return y - 1, 12, 31
                if k == 1:
                    if d < dim(y, m):
                        return y, m, d + 1
                    if m < 12:
                        return y, m + 1, 1
                    return y + 1, 1, 1
        return ord2ymd(n)
    mod._ymd2ord, mod._ord2ymd = _ymd2ord, _ord2ymd


class Loader(importlib.abc.Loader):
    def __init__(self, fullname, path, is_pkg):
        self.fullname, self.path, self.is_pkg = fullname, path, is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path) as fh:
            src = fh.read()
        module.__dict__['__builtins__'] = BUILTINS
        exec(compile_instrumented(src, self.path), module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split('.')[0]
        if top not in REPO_PACKAGES and top != 'harness':
            return None
        base = os.path.join(VERIF if top == 'harness' else REPO, *fullname.split('.'))
        if os.path.isfile(os.path.join(base, '__init__.py')):
            p = os.path.join(base, '__init__.py')
            spec = importlib.machinery.ModuleSpec(
                fullname, Loader(fullname, p, True), origin=p, is_package=True)
            spec.submodule_search_locations = [base]
        elif os.path.isfile(base + '.py'):
            p = base + '.py'
            spec = importlib.machinery.ModuleSpec(
                fullname, Loader(fullname, p, False), origin=p)
        elif os.path.isdir(base):
            spec = importlib.machinery.ModuleSpec(fullname, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        else:
            return None
        spec.has_location = True
        return spec


def install():
    sys.meta_path.insert(0, Finder())
