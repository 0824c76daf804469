"""Regular expressions over symbolic strings.

The pattern is parsed with CPython's own parser; whether a match exists is one
z3 formula (one fork); the span/groups of a match are found by backtracking in
CPython's priority order, forking on the character tests.
"""
import contextlib
import functools
import re
import z3
try:
    from re import _parser as sre_parse, _constants as sc
except ImportError:          # pragma: no cover
    import sre_parse
    import sre_constants as sc
from .core import eng, Unsupported
from .strings import (SymStr, lift, mk, mkstr, ceq, cin, zand, zor, znot,
                      isdigit, isalpha, isspace)
from .values import mkbool, is_sym


def _word(c):
    return zor([isalpha(c), isdigit(c), ceq(c, 95)])


_CAT = {sc.CATEGORY_DIGIT: isdigit, sc.CATEGORY_SPACE: isspace, sc.CATEGORY_WORD: _word,
        sc.CATEGORY_NOT_DIGIT: lambda c: znot(isdigit(c)),
        sc.CATEGORY_NOT_SPACE: lambda c: znot(isspace(c)),
        sc.CATEGORY_NOT_WORD: lambda c: znot(_word(c))}


@functools.lru_cache(maxsize=None)
def runs(pattern, flags):
    """code point ranges of the characters that the one-character pattern matches,
    asked of CPython's own matcher"""
    match = re.compile(pattern, flags).match
    out, first = [], None
    for c in range(0x110001):
        m = c < 0x110000 and match(chr(c)) is not None
        if m and first is None:
            first = c
        elif not m and first is not None:
            out.append((first, c - 1))
            first = None
    return tuple(out)


_CLASS = {sc.CATEGORY_DIGIT: r'\d', sc.CATEGORY_SPACE: r'\s', sc.CATEGORY_WORD: r'\w',
          sc.CATEGORY_NOT_DIGIT: r'\D', sc.CATEGORY_NOT_SPACE: r'\S', sc.CATEGORY_NOT_WORD: r'\W'}


class Prog:
    cache = {}

    def __init__(self, pattern, flags=0, wide=False):
        # wide: some characters are not ASCII
        self.wide = wide
        self.source = pattern, flags
        self.tree = sre_parse.parse(pattern, flags)
        self.flags = self.tree.state.flags | flags
        self.icase = bool(self.flags & re.IGNORECASE)
        self.multiline = bool(self.flags & re.MULTILINE)
        self.dotall = bool(self.flags & re.DOTALL)
        self.ngroups = self.tree.state.groups
        self.names = dict(self.tree.state.groupdict)
        self.groupfree = {}
        self.needs_ascii = self.icase or self._uses_cat(self.tree)

    @classmethod
    def get(cls, pattern, flags=0, wide=False):
        k = (pattern, int(flags), wide)
        if k not in cls.cache:
            cls.cache[k] = cls(pattern, int(flags), wide)
        return cls.cache[k]

    def among(self, pattern, c):
        flags = int(self.flags) & int(re.ASCII | (re.IGNORECASE if self.icase else 0))
        got = runs(pattern, flags)
        if isinstance(c, int):
            return any(lo <= c <= hi for lo, hi in got)
        return zor([cin(c, lo, hi) for lo, hi in got])

    def category(self, cat, c):
        return self.among(_CLASS[cat], c) if self.wide else _CAT[cat](c)

    def _uses_cat(self, tree):
        s = repr(list(tree))
        return 'CATEGORY' in s

    # -- single characters ---------------------------------------------------
    def lit(self, code, c):
        if self.icase and self.wide:
            return self.among(re.escape(chr(code)), c)
        if self.icase:
            ch = chr(code)
            return zor([ceq(c, ord(x)) for x in {ch.lower(), ch.upper()} if len(x) == 1])
        return ceq(c, code)

    def inset(self, items, c):
        neg, alts = False, []
        for op, av in items:
            if op is sc.NEGATE:
                neg = True
            elif op is sc.LITERAL:
                alts.append(self.lit(av, c))
            elif op is sc.RANGE:
                lo, hi = av
                if self.icase and self.wide:
                    alts.append(self.among('[%s-%s]' % (re.escape(chr(lo)), re.escape(chr(hi))), c))
                    continue
                alts.append(cin(c, lo, hi))
                if self.icase:
                    a, b = max(lo, 65), min(hi, 90)
                    if a <= b:
                        alts.append(cin(c, a + 32, b + 32))
                    a, b = max(lo, 97), min(hi, 122)
                    if a <= b:
                        alts.append(cin(c, a - 32, b - 32))
            elif op is sc.CATEGORY:
                alts.append(self.category(av, c))
            else:
                raise Unsupported('regex set item %s' % op)
        r = zor(alts)
        return znot(r) if neg else r

    def single(self, op, av, c):
        """term: this one-character node matches c (None if not such a node)"""
        if op is sc.LITERAL:
            return self.lit(av, c)
        if op is sc.NOT_LITERAL:
            return znot(self.lit(av, c))
        if op is sc.ANY:
            return True if self.dotall else znot(ceq(c, 10))
        if op is sc.IN:
            return self.inset(av, c)
        return None

    def at(self, av, pos, chars):
        n = len(chars)
        if av in (sc.AT_BEGINNING_STRING,) or (av is sc.AT_BEGINNING and not self.multiline):
            return pos == 0
        if av is sc.AT_END_STRING:
            return pos == n
        if av is sc.AT_END and not self.multiline:
            if pos == n:
                return True
            return ceq(chars[pos], 10) if pos == n - 1 else False
        if av in (sc.AT_BOUNDARY, sc.AT_NON_BOUNDARY):
            a = self.category(sc.CATEGORY_WORD, chars[pos - 1]) if pos > 0 else False
            b = self.category(sc.CATEGORY_WORD, chars[pos]) if pos < n else False
            diff = zor([zand([a, znot(b)]), zand([znot(a), b])])
            return diff if av is sc.AT_BOUNDARY else znot(diff)
        raise Unsupported('regex anchor %s' % av)

    # -- existence as a formula ------------------------------------------------
    def ends(self, nodes, states, chars):
        """states: {pos: term}; returns {pos: term} after the node list"""
        for op, av in nodes:
            if not states:
                return {}
            states = self.ends1(op, av, states, chars)
        return states

    @staticmethod
    def _merge(dst, pos, t):
        if t is False:
            return
        dst[pos] = zor([dst[pos], t]) if pos in dst else t

    def ends1(self, op, av, states, chars):
        out = {}
        n = len(chars)
        if op in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN):
            for p, t in states.items():
                if p < n:
                    self._merge(out, p + 1, zand([t, self.single(op, av, chars[p])]))
            return out
        if op is sc.AT:
            for p, t in states.items():
                self._merge(out, p, zand([t, self.at(av, p, chars)]))
            return out
        if op is sc.SUBPATTERN:
            with self.inline(av):
                return self.ends(av[3], states, chars)
        if op is sc.BRANCH:
            for alt in av[1]:
                for p, t in self.ends(alt, states, chars).items():
                    self._merge(out, p, t)
            return out
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, body = av
            cur, i = states, 0
            if lo == 0:
                for p, t in cur.items():
                    self._merge(out, p, t)
            while cur and (hi is sc.MAXREPEAT or i < hi) and i <= n + int(lo):
                cur = self.ends(body, cur, chars)
                i += 1
                if i >= lo:
                    for p, t in cur.items():
                        self._merge(out, p, t)
            return out
        if op in (sc.ASSERT, sc.ASSERT_NOT):
            direction, body = av
            if direction != 1:
                raise Unsupported('lookbehind')
            for p, t in states.items():
                e = zor(list(self.ends(body, {p: True}, chars).values()))
                self._merge(out, p, zand([t, e if op is sc.ASSERT else znot(e)]))
            return out
        raise Unsupported('regex node %s' % op)

    @contextlib.contextmanager
    def inline(self, av):
        """(?flags-flags:...): only the case flag is modelled"""
        add, drop = av[1], av[2]
        if (add | drop) & ~re.IGNORECASE:
            raise Unsupported('inline regex flags')
        old = self.icase
        self.icase = (old or bool(add)) and not drop
        try:
            yield
        finally:
            self.icase = old

    # -- possible ends of a group-free node, in CPython's priority order ---------
    def nogroups(self, op, av):
        key = id(av)
        r = self.groupfree.get(key)
        if r is None:
            r = self.groupfree[key] = (self._nogroups(op, av), av)
        return r[0]

    def _nogroups(self, op, av):
        if op is sc.SUBPATTERN:
            return av[0] is None and all(self._nogroups(*x) for x in av[3])
        if op is sc.BRANCH:
            return all(self._nogroups(*x) for alt in av[1] for x in alt)
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            return all(self._nogroups(*x) for x in av[2])
        return op in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN, sc.AT)

    @staticmethod
    def _squeeze(xs):
        out = []
        for p, t in xs:
            if t is False:
                continue
            if out and out[-1][0] == p:
                out[-1] = (p, zor([out[-1][1], t]))
            else:
                out.append((p, t))
        return out

    def pends(self, nodes, pos, chars):
        """[(end, term)]: consecutive alternatives with one end are merged, which
        cannot be told apart by the rest of the match"""
        cur = [(pos, True)]
        for op, av in nodes:
            cur = self._squeeze([(q, zand([t, u])) for p, t in cur
                                 for q, u in self.pends1(op, av, p, chars)])
        return cur

    def pends1(self, op, av, p, chars):
        if op is sc.AT:
            return [(p, self.at(av, p, chars))]
        if op is sc.SUBPATTERN:
            with self.inline(av):
                return self.pends(av[3], p, chars)
        if op is sc.BRANCH:
            return self._squeeze([x for alt in av[1] for x in self.pends(alt, p, chars)])
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, body = av
            hi = len(chars) + int(lo) + 1 if hi is sc.MAXREPEAT else hi

            def rep(p, n):
                more = []
                if n < hi:
                    for q, u in self.pends(body, p, chars):
                        if q == p and n >= lo:
                            continue
                        more.extend((r, zand([u, v])) for r, v in rep(q, n + 1))
                stop = [(p, True)] if n >= lo else []
                return self._squeeze(more + stop if op is sc.MAX_REPEAT else stop + more)
            return rep(p, 0)
        return [(p + 1, self.single(op, av, chars[p]))] if p < len(chars) else []

    # -- concrete structure of a match, by backtracking with forks ---------------
    def walk(self, nodes, i, pos, groups, chars):
        if i == len(nodes):
            yield pos, groups
            return
        op, av = nodes[i]
        e = eng()
        if op in (sc.SUBPATTERN, sc.BRANCH, sc.MAX_REPEAT, sc.MIN_REPEAT) and \
                self.nogroups(op, av):
            for p, t in self.pends1(op, av, pos, chars):
                if e.branch(t):
                    yield from self.walk(nodes, i + 1, p, groups, chars)
            return
        if op is sc.SUBPATTERN and all(self.nogroups(*x) for x in av[3]):
            for p, t in self.pends1(op, av, pos, chars):
                if e.branch(t):
                    yield from self.walk(nodes, i + 1, p, {**groups, av[0]: (pos, p)}, chars)
            return
        if op in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN):
            if pos < len(chars) and e.branch(self.single(op, av, chars[pos])):
                yield from self.walk(nodes, i + 1, pos + 1, groups, chars)
        elif op is sc.AT:
            if e.branch(self.at(av, pos, chars)):
                yield from self.walk(nodes, i + 1, pos, groups, chars)
        elif op is sc.SUBPATTERN:
            if av[1] or av[2]:
                raise Unsupported('inline regex flags around groups')
            g = av[0]
            for p, gr in self.walk(list(av[3]), 0, pos, groups, chars):
                g2 = {**gr, g: (pos, p)} if g is not None else gr
                yield from self.walk(nodes, i + 1, p, g2, chars)
        elif op is sc.BRANCH:
            for alt in av[1]:
                for p, gr in self.walk(list(alt), 0, pos, groups, chars):
                    yield from self.walk(nodes, i + 1, p, gr, chars)
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, body = av
            body = list(body)
            hi = len(chars) + int(lo) + 1 if hi is sc.MAXREPEAT else hi
            yield from self._rep(nodes, i, pos, groups, chars, lo, hi, body, 0,
                                 op is sc.MAX_REPEAT)
        elif op in (sc.ASSERT, sc.ASSERT_NOT):
            ok = e.branch(zor(list(self.ends(av[1], {pos: True}, chars).values())))
            if ok == (op is sc.ASSERT):
                yield from self.walk(nodes, i + 1, pos, groups, chars)
        else:
            raise Unsupported('regex node %s' % op)

    def _rep(self, nodes, i, pos, groups, chars, lo, hi, body, n, greedy):
        def more():
            if n < hi:
                for p, gr in self.walk(body, 0, pos, groups, chars):
                    if p == pos and n >= lo:
                        continue
                    yield from self._rep(nodes, i, p, gr, chars, lo, hi, body, n + 1, greedy)

        def stop():
            if n >= lo:
                yield from self.walk(nodes, i + 1, pos, groups, chars)
        if greedy:
            yield from more()
            yield from stop()
        else:
            yield from stop()
            yield from more()

    # -- entry points -----------------------------------------------------------
    def run(self, s, mode, start=0, pattern=None):
        s = lift(s)
        chars = s.chars()
        e = eng()
        if self.needs_ascii and not self.wide:
            for c in chars:
                if c > 127 if isinstance(c, int) else not e.branch(cin(c, 0, 127)):
                    return Prog.get(*self.source, wide=True).run(s, mode, start, pattern)
        nodes = list(self.tree)
        n = len(chars)
        starts = [start] if mode != 'search' else range(start, n + 1)
        by_start = []
        for st in starts:
            ends = self.ends(nodes, {st: True}, chars)
            t = ends.get(n, False) if mode == 'fullmatch' else zor(list(ends.values()))
            by_start.append((st, t))
        if not e.branch(zor([t for _, t in by_start])):
            return None
        return SymMatch(self, s, nodes, by_start, mode)


class SymMatch:
    def __init__(self, prog, s, nodes, by_start, mode):
        self.prog, self.string, self.nodes = prog, s, nodes
        self.by_start, self.mode = by_start, mode
        self._done = None

    def _resolve(self):
        if self._done is None:
            e = eng()
            chars = self.string.chars()
            st = next(st for st, t in self.by_start if e.branch(t))
            for p, gr in self.prog.walk(self.nodes, 0, st, {}, chars):
                if self.mode == 'fullmatch' and p != len(chars):
                    continue
                self._done = {**gr, 0: (st, p)}
                break
            else:
                raise Unsupported('regex engine: existence and walk disagree')
        return self._done

    def __bool__(self):
        return True

    def _g(self, k):
        if isinstance(k, str):
            if k not in self.prog.names:
                raise IndexError('no such group')
            k = self.prog.names[k]
        if k >= self.prog.ngroups:
            raise IndexError('no such group')
        return self._resolve().get(k)

    def _val(self, k, default=None):
        sp = self._g(k)
        return default if sp is None else self.string[sp[0]:sp[1]]

    def group(self, *ks):
        if not ks:
            return self._val(0)
        if len(ks) == 1:
            return self._val(ks[0])
        return tuple(self._val(k) for k in ks)

    __getitem__ = group

    def groups(self, default=None):
        return tuple(self._val(k, default) for k in range(1, self.prog.ngroups))

    def groupdict(self, default=None):
        return {k: self._val(v, default) for k, v in self.prog.names.items()}

    def span(self, k=0):
        return self._g(k) or (-1, -1)

    def start(self, k=0):
        return self.span(k)[0]

    def end(self, k=0):
        return self.span(k)[1]


def run(pattern, s, mode, start=0, flags=0):
    if isinstance(pattern, re.Pattern):
        pattern, flags = pattern.pattern, pattern.flags
    return Prog.get(pattern, flags).run(s, mode, start)


def findall(pattern, s, flags=0):
    out, pos = [], 0
    s = lift(s)
    while pos <= len(s):
        m = run(pattern, s, 'search', pos, flags)
        if m is None:
            break
        out.append(m)
        a, b = m.span()
        pos = b if b > a else b + 1
    return out


def sub(pattern, repl, s, count=0, flags=0):
    s = lift(s)
    if callable(repl) or (isinstance(repl, str) and not is_sym(repl) and '\\' in repl):
        if not callable(repl):
            raise Unsupported('regex template')
    out, last = mkstr([]), 0
    ms = findall(pattern, s, flags)
    if count:
        ms = ms[:count]
    for m in ms:
        a, b = m.span()
        out = mk(out) + s[last:a] + (repl(m) if callable(repl) else repl)
        last = b
    return mk(out) + s[last:]


def split(pattern, s, maxsplit=0, flags=0):
    s = lift(s)
    out, last = [], 0
    ms = findall(pattern, s, flags)
    if maxsplit:
        ms = ms[:maxsplit]
    for m in ms:
        a, b = m.span()
        out.append(s[last:a])
        out.extend(m.groups())
        last = b
    out.append(s[last:])
    return out
