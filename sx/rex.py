"""A backtracking regular expression matcher over symbolic strings.

Works on the parse tree of the standard library's own regex parser, in the
standard's priority order; every character test is decided by the engine.
Adjacent alternatives that only differ in one character class are cheap
because infeasible branches are pruned by the solver.
"""
import re
from re import _constants as C
from re import _parser as P

from . import strops as S
from .core import Inconclusive, char_expr, has_tok, AND, OR, NOT

_CACHE = {}


def parse(pattern, flags=0):
    key = (pattern, flags)
    r = _CACHE.get(key)
    if r is None:
        r = _CACHE[key] = P.parse(pattern, flags)
    return r


_CAT = {
    C.CATEGORY_DIGIT: lambda c: chr(c).isdecimal(),
    C.CATEGORY_NOT_DIGIT: lambda c: not chr(c).isdecimal(),
    C.CATEGORY_SPACE: lambda c: chr(c).isspace(),
    C.CATEGORY_NOT_SPACE: lambda c: not chr(c).isspace(),
    C.CATEGORY_WORD: lambda c: chr(c).isalnum() or c == 95,
    C.CATEGORY_NOT_WORD: lambda c: not (chr(c).isalnum() or c == 95),
}
_CATA = {
    C.CATEGORY_DIGIT: lambda c: 48 <= c <= 57,
    C.CATEGORY_NOT_DIGIT: lambda c: not (48 <= c <= 57),
    C.CATEGORY_SPACE: lambda c: c < 128 and chr(c).isspace(),
    C.CATEGORY_NOT_SPACE: lambda c: not (c < 128 and chr(c).isspace()),
    C.CATEGORY_WORD: lambda c: c < 128 and (chr(c).isalnum() or c == 95),
    C.CATEGORY_NOT_WORD: lambda c: not (c < 128 and (chr(c).isalnum() or c == 95)),
}


class _Compiled:
    __slots__ = ("pat", "flags", "groups", "groupindex", "tree", "nodes")

    def __init__(self, pattern, flags):
        if isinstance(pattern, bytes):
            raise Inconclusive("bytes regex on symbolic data")
        if has_tok(pattern):
            raise Inconclusive("symbolic regex pattern")
        t = parse(pattern, flags)
        self.pat = pattern
        self.flags = t.state.flags
        self.groups = t.state.groups
        self.groupindex = dict(t.state.groupdict)
        self.tree = t
        self.nodes = list(t)


def _ci(c):
    s = chr(c)
    return {s, s.lower(), s.upper(), s.casefold(), s.swapcase()}


class _M:
    def __init__(self, comp, s):
        self.c = comp
        self.s = s
        self.memo = {}

    def char_test(self, pos, key, pred, flags):
        """Decide one character class test; the class is given by pred(cp)."""
        if flags & re.I:
            base = pred
            pred = lambda c: any(base(ord(x)) for x in _ci(c) if len(x) == 1)
        return S.decide(S.char_in(self.s[pos], pred))

    def class_pred(self, items, flags):
        neg = False
        preds = []
        cat = _CATA if flags & re.A else _CAT
        for op, av in items:
            if op is C.NEGATE:
                neg = True
            elif op is C.LITERAL:
                preds.append(lambda c, a=av: c == a)
            elif op is C.RANGE:
                preds.append(lambda c, a=av: a[0] <= c <= a[1])
            elif op is C.CATEGORY:
                preds.append(cat[av])
            else:
                raise Inconclusive("regex class item %r" % (op,))
        if neg:
            return lambda c: not any(p(c) for p in preds)
        return lambda c: any(p(c) for p in preds)

    def m(self, nodes, i, pos, groups, flags, k):
        """Match nodes[i:] at pos, then continuation k(pos, groups)."""
        s = self.s
        n = len(s)
        if i == len(nodes):
            return k(pos, groups)
        op, av = nodes[i]
        nxt = lambda p, g: self.m(nodes, i + 1, p, g, flags, k)
        if op is C.LITERAL:
            if pos >= n or not self.char_test(pos, None, lambda c: c == av, flags):
                return None
            return nxt(pos + 1, groups)
        if op is C.NOT_LITERAL:
            if pos >= n:
                return None
            if flags & re.I:
                if self.char_test(pos, None, lambda c: c == av, flags):
                    return None
            elif not self.char_test(pos, None, lambda c: c != av, flags):
                return None
            return nxt(pos + 1, groups)
        if op is C.ANY:
            if pos >= n:
                return None
            if not flags & re.S and not self.char_test(pos, None, lambda c: c != 10, 0):
                return None
            return nxt(pos + 1, groups)
        if op is C.IN:
            if pos >= n:
                return None
            neg = bool(av) and av[0][0] is C.NEGATE
            if neg and flags & re.I:
                p = self.class_pred(av[1:], flags)
                if self.char_test(pos, None, p, flags):
                    return None
            elif not self.char_test(pos, None, self.class_pred(av, flags), flags):
                return None
            return nxt(pos + 1, groups)
        if op is C.BRANCH:
            for alt in av[1]:
                r = self.m(list(alt), 0, pos, groups, flags, nxt)
                if r is not None:
                    return r
            return None
        if op is C.SUBPATTERN:
            gid, add, dele, sub = av
            f2 = (flags | add) & ~dele

            def after(p, g, pos=pos):
                if gid is not None:
                    g = dict(g)
                    g[gid] = (pos, p)
                return nxt(p, g)

            return self.m(list(sub), 0, pos, groups, f2, after)
        if op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
            lo, hi, sub = av
            hi = n + 1 if hi is C.MAXREPEAT else hi
            sub = list(sub)
            if op is C.POSSESSIVE_REPEAT:
                raise Inconclusive("possessive repeat")
            if op is C.MAX_REPEAT and len(sub) == 1 and sub[0][0] in (
                C.LITERAL,
                C.IN,
                C.ANY,
                C.NOT_LITERAL,
            ):
                # single character repeat: scan lazily, then back off
                end = pos
                cnt = 0
                while cnt < hi:
                    r = self.m(sub, 0, end, groups, flags, lambda p, g: (p, g))
                    if r is None:
                        break
                    end = r[0]
                    cnt += 1
                while cnt >= lo:
                    r = nxt(end, groups)
                    if r is not None:
                        return r
                    end -= 1
                    cnt -= 1
                return None

            def rep(cnt, p, g):
                if op is C.MAX_REPEAT:
                    if cnt < hi:

                        def more(p2, g2):
                            if p2 == p and cnt >= lo:
                                return None
                            return rep(cnt + 1, p2, g2)

                        r = self.m(sub, 0, p, g, flags, more)
                        if r is not None:
                            return r
                    if cnt >= lo:
                        return nxt(p, g)
                    return None
                if cnt >= lo:
                    r = nxt(p, g)
                    if r is not None:
                        return r
                if cnt < hi:

                    def more(p2, g2):
                        if p2 == p and cnt >= lo:
                            return None
                        return rep(cnt + 1, p2, g2)

                    return self.m(sub, 0, p, g, flags, more)
                return None

            return rep(0, pos, groups)
        if op is C.AT:
            if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
                if av is C.AT_BEGINNING and flags & re.M:
                    ok = pos == 0 or self.char_test(pos - 1, None, lambda c: c == 10, 0)
                else:
                    ok = pos == 0
            elif av is C.AT_END_STRING:
                ok = pos == n
            elif av is C.AT_END:
                if flags & re.M:
                    ok = pos == n or self.char_test(pos, None, lambda c: c == 10, 0)
                else:
                    ok = pos == n or (
                        pos == n - 1 and self.char_test(pos, None, lambda c: c == 10, 0)
                    )
            elif av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
                cat = (_CATA if flags & re.A else _CAT)[C.CATEGORY_WORD]
                a = pos > 0 and self.char_test(pos - 1, None, cat, 0)
                b = pos < n and self.char_test(pos, None, cat, 0)
                ok = (a != b) == (av is C.AT_BOUNDARY)
            else:
                raise Inconclusive("regex anchor %r" % (av,))
            return nxt(pos, groups) if ok else None
        if op is C.GROUPREF:
            if av not in groups:
                return None
            a, b = groups[av]
            L = b - a
            if pos + L > n or not S.decide(S.eq(s[a:b], s[pos : pos + L])):
                return None
            return nxt(pos + L, groups)
        if op in (C.ASSERT, C.ASSERT_NOT):
            direction, sub = av
            if direction != 1:
                # fixed width look-behind
                w = sub.getwidth()
                if w[0] != w[1]:
                    raise Inconclusive("variable look-behind")
                st = pos - w[0]
                r = None
                if st >= 0:
                    r = self.m(list(sub), 0, st, groups, flags, lambda p, g: (p, g))
            else:
                r = self.m(list(sub), 0, pos, groups, flags, lambda p, g: (p, g))
            if op is C.ASSERT:
                return nxt(pos, r[1]) if r is not None else None
            return nxt(pos, groups) if r is None else None
        if op is C.GROUPREF_EXISTS:
            gid, yes, no = av
            alt = yes if gid in groups else no
            return self.m(list(alt) if alt is not None else [], 0, pos, groups, flags, nxt)
        raise Inconclusive("regex operator %r" % (op,))


class SymMatch:
    def __init__(self, comp, s, start, end, groups):
        self.re = comp
        self.string = s
        self._g = dict(groups)
        self._g[0] = (start, end)
        self._c = comp

    def _gid(self, g):
        if isinstance(g, str):
            return self._c.groupindex[g]
        if g < 0 or g >= self._c.groups:
            raise IndexError("no such group")
        return g

    def _one(self, g, default=None):
        g = self._gid(g)
        if g not in self._g:
            return default
        a, b = self._g[g]
        return self.string[a:b]

    def group(self, *gs):
        if not gs:
            return self._one(0)
        if len(gs) == 1:
            return self._one(gs[0])
        return tuple(self._one(g) for g in gs)

    __getitem__ = _one

    def groups(self, default=None):
        return tuple(self._one(i, default) for i in range(1, self._c.groups))

    def groupdict(self, default=None):
        return {n: self._one(i, default) for n, i in self._c.groupindex.items()}

    def start(self, g=0):
        return self._g.get(self._gid(g), (-1, -1))[0]

    def end(self, g=0):
        return self._g.get(self._gid(g), (-1, -1))[1]

    def span(self, g=0):
        return self._g.get(self._gid(g), (-1, -1))

    @property
    def lastindex(self):
        ks = [k for k in self._g if k]
        return max(ks, key=lambda k: self._g[k][1]) if ks else None

    def expand(self, tmpl):
        return _expand(tmpl, self)

    def __bool__(self):
        return True


def _comp(pattern, flags=0):
    if isinstance(pattern, re.Pattern):
        return _Compiled(pattern.pattern, pattern.flags & ~re.U if isinstance(pattern.pattern, str) else pattern.flags)
    if isinstance(pattern, _Compiled):
        return pattern
    return _Compiled(pattern, int(flags))


def _at(comp, s, pos, full):
    mm = _M(comp, s)

    def fin(p, g):
        if full and p != len(s):
            return None
        return (p, g)

    r = mm.m(comp.nodes, 0, pos, {}, comp.flags, fin)
    if r is None:
        return None
    return SymMatch(comp, s, pos, r[0], r[1])


def match(pattern, s, flags=0):
    return _at(_comp(pattern, flags), s, 0, False)


def fullmatch(pattern, s, flags=0):
    return _at(_comp(pattern, flags), s, 0, True)


def search(pattern, s, flags=0, pos=0):
    c = _comp(pattern, flags)
    for i in range(pos, len(s) + 1):
        r = _at(c, s, i, False)
        if r is not None:
            return r
        if c.nodes and c.nodes[0][0] is C.AT and c.nodes[0][1] in (
            C.AT_BEGINNING_STRING,
            C.AT_BEGINNING,
        ) and not c.flags & re.M:
            return None
    return None


def finditer(pattern, s, flags=0):
    c = _comp(pattern, flags)
    pos = 0
    last_empty = -1
    while pos <= len(s):
        r = search(c, s, 0, pos)
        if r is None:
            return
        yield r
        a, b = r.span()
        pos = b if b > a else b + 1


def findall(pattern, s, flags=0):
    out = []
    for m in finditer(pattern, s, flags):
        g = m._c.groups - 1
        out.append(m.group() if g == 0 else (m.group(1) or "") if g == 1 else tuple(x or "" for x in m.groups()))
    return out


def _expand(repl, m):
    if "\\" not in repl:
        return repl
    out = []
    i = 0
    while i < len(repl):
        ch = repl[i]
        if ch == "\\" and i + 1 < len(repl):
            nx = repl[i + 1]
            if nx.isdigit():
                out.append(m._one(int(nx)) or "")
                i += 2
                continue
            if nx == "g" and i + 2 < len(repl) and repl[i + 2] == "<":
                j = repl.index(">", i)
                name = repl[i + 3 : j]
                out.append(m._one(int(name) if name.isdigit() else name) or "")
                i = j + 1
                continue
            if nx == "n":
                out.append("\n")
                i += 2
                continue
            if nx == "\\":
                out.append("\\")
                i += 2
                continue
            raise Inconclusive("regex replacement template")
        out.append(ch)
        i += 1
    return "".join(out)


def sub(pattern, repl, s, count=0, flags=0):
    out, last, n = [], 0, 0
    for m in finditer(pattern, s, flags):
        if count and n >= count:
            break
        a, b = m.span()
        out.append(s[last:a])
        out.append(repl(m) if callable(repl) else _expand(repl, m))
        last = b
        n += 1
    out.append(s[last:])
    return "".join(out)


def split(pattern, s, maxsplit=0, flags=0):
    out, last, n = [], 0, 0
    for m in finditer(pattern, s, flags):
        if maxsplit and n >= maxsplit:
            break
        a, b = m.span()
        out.append(s[last:a])
        out.extend(m.groups())
        last = b
        n += 1
    out.append(s[last:])
    return out
