"""Runtime called by instrumented code."""
import builtins
import collections
import copy
import datetime
import decimal
import functools
import itertools
import math
import re
import types
import urllib.parse

import z3

from . import order
from . import rex
from . import strops as S
from .core import (
    AND,
    CTX,
    NOT,
    OR,
    E,
    Inconclusive,
    SymBool,
    SymInt,
    SymNum,
    concretize_int,
    has_tok,
    mkbool,
    truth,
    _b,
    _num,
    _wrap,
)

SYM = (SymBool, SymInt, SymNum)
_B = types.BuiltinFunctionType
_MISSING = object()


def symbolic(x, depth=3):
    """Does x (looking into built-in containers) contain a symbolic value?"""
    t = type(x)
    if t is str:
        return not x.isascii() and has_tok(x) is not None
    if t in SYM:
        return True
    if t is bytes:
        return not x.isascii() and has_tok(x.decode("utf-8", "ignore")) is not None
    if depth and t in (list, tuple, set, frozenset, collections.deque):
        for y in x:
            if symbolic(y, depth - 1):
                return True
        return False
    if depth and isinstance(x, dict):
        for k, v in x.items():
            if symbolic(k, depth - 1) or symbolic(v, depth - 1):
                return True
        return False
    if isinstance(x, str):
        return has_tok(x) is not None
    return hasattr(t, "sx_symbolic")


def concretize(x):
    t = type(x)
    if hasattr(t, "sx_symbolic"):
        return x.native()
    if isinstance(x, str):
        return S.concretize(x)
    if t is SymBool:
        return bool(x)
    if t is SymInt:
        return concretize_int(x)
    if t is SymNum:
        raise Inconclusive("native use of a symbolic " + x.kind)
    if t is bytes:
        return S.concretize(x.decode("utf-8")).encode("utf-8")
    if t in (list, tuple, set, frozenset):
        return t(concretize(y) for y in x)
    if t is dict:
        return {concretize(k): concretize(v) for k, v in x.items()}
    return x


# ------------------------------------------------------------ comparisons


def eq(a, b):
    """a == b as python object, bool or SymBool; containers handled deeply."""
    ta, tb = type(a), type(b)
    if ta is str and tb is str:
        if a == b:
            return True
        if len(a) != len(b) or (a.isascii() and b.isascii()):
            return False
        if not has_tok(a) and not has_tok(b):
            return False
        return mkbool(S.eq(a, b))
    if ta in (list, tuple) and ta is tb:
        if a is b:
            return True
        if len(a) != len(b):
            return False
        acc = []
        for x, y in zip(a, b):
            r = x is y or eq(x, y)
            if r is True:
                continue
            if isinstance(r, SymBool):
                acc.append(r)
                continue
            if not r:
                return False
        return mkbool(AND(*acc))
    if isinstance(a, dict) and isinstance(b, dict):
        if symbolic(a) or symbolic(b):
            if len(a) != len(b):
                return False
            acc = []
            for k, v in a.items():
                k2 = key(b, k)
                if k2 not in b:
                    return False
                r = eq(v, b[k2])
                if r is not True and not isinstance(r, SymBool):
                    if not r:
                        return False
                    continue
                acc.append(r)
            return mkbool(AND(*acc))
        return a == b
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        if symbolic(a) or symbolic(b):
            if len(a) != len(b):
                return False
            return all(contains(b, x) for x in a)
        return a == b
    if isinstance(a, str) and isinstance(b, str) and (has_tok(a) or has_tok(b)):
        return mkbool(S.eq(str(a), str(b)))
    return a == b


def ne(a, b):
    ta, tb = type(a), type(b)
    if ta in (str, list, tuple, dict, set, frozenset) or tb is str:
        r = eq(a, b)
        if isinstance(r, SymBool):
            return mkbool(NOT(r))
        return not r
    r = a != b
    return r


def _ord(name, a, b):
    if isinstance(a, str) and isinstance(b, str) and (has_tok(a) or has_tok(b)):
        if name == "lt":
            return mkbool(_b2(S.lt(a, b)))
        if name == "gt":
            return mkbool(_b2(S.lt(b, a)))
        if name == "le":
            return mkbool(NOT(S.lt(b, a)))
        return mkbool(NOT(S.lt(a, b)))
    ta = type(a)
    if ta in (list, tuple) and type(b) is ta and (symbolic(a) or symbolic(b)):
        for x, y in zip(a, b):
            if truth(eq(x, y)):
                continue
            return _ord("lt" if name in ("lt", "le") else "gt", x, y)
        n, m = len(a), len(b)
        return {"lt": n < m, "gt": n > m, "le": n <= m, "ge": n >= m}[name]
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)) and (symbolic(a) or symbolic(b)):
        sub = all(contains(b, x) for x in a)
        sup = all(contains(a, x) for x in b)
        return {"le": sub, "lt": sub and not sup, "ge": sup, "gt": sup and not sub}[name]
    if name == "lt":
        return a < b
    if name == "gt":
        return a > b
    if name == "le":
        return a <= b
    return a >= b


def _b2(x):
    return x


def lt(a, b):
    return _ord("lt", a, b)


def gt(a, b):
    return _ord("gt", a, b)


def le(a, b):
    return _ord("le", a, b)


def ge(a, b):
    return _ord("ge", a, b)


_KEYT = (str, tuple)


def _symkey(k):
    if type(k) is str:
        return not k.isascii() and has_tok(k) is not None
    if type(k) in (tuple, frozenset):
        for x in k:
            if _symkey(x):
                return True
        return False
    return type(k) in SYM


def key(d, k):
    """The key object of mapping/set d equal to k, or k itself.  Forks."""
    t = type(k)
    if t not in (str, tuple, frozenset):
        if t in SYM:
            if t is SymInt:
                return concretize_int(k)
            if t is SymBool:
                return bool(k)
            for k0 in d:
                if truth(eq(k0, k)):
                    return k0
            return k
        return k
    if isinstance(d, (list, tuple, str)) or not hasattr(d, "__iter__"):
        return k
    try:
        if k in d:
            return k
    except TypeError:
        return k
    sk = _symkey(k)
    if not sk:
        # concrete key: only matters when d has symbolic keys
        sym = False
        for k0 in d:
            if type(k0) in _KEYT and _symkey(k0):
                sym = True
                break
        if not sym:
            return k
    for k0 in d:
        if type(k0) is not t:
            continue
        if not sk and not _symkey(k0):
            continue
        if truth(eq(k0, k)):
            return k0
    return k


class _Counter:
    pass


def contains(c, x):
    """x in c"""
    tc = type(c)
    if isinstance(c, str):
        if isinstance(x, str):
            if (c.isascii() or not has_tok(c)) and (x.isascii() or not has_tok(x)):
                return x in c
            return mkbool(S.contains(c, x))
        return x in c
    if isinstance(c, dict) or tc in (set, frozenset):
        if tc in (set, frozenset, dict) or type(x) in _KEYT:
            k = key(c, x)
            return k in c
        return x in c
    if tc is type({}.keys()):
        k = key(c, x)
        return k in c
    if tc in (list, tuple, collections.deque) or tc is type({}.values()):
        tx = type(x)
        if tx in (str, tuple, list) or tx in SYM:
            acc = []
            for y in c:
                if y is x:
                    return True
                r = eq(y, x)
                if r is True:
                    return True
                if isinstance(r, SymBool):
                    acc.append(r)
                elif r:
                    return True
            return mkbool(OR(*acc))
        if isinstance(x, SYM):
            return any(truth(eq(y, x)) for y in c)
        return x in c
    if tc is range and isinstance(x, SymInt):
        lo, hi, st = c.start, c.stop, c.step
        if st == 1:
            return mkbool(AND(x >= lo, x < hi))
        return concretize_int(x) in c
    if isinstance(x, str) and hasattr(c, "__next__"):
        for y in c:
            if truth(eq(y, x)):
                return True
        return False
    if symbolic(x) and isinstance(c, type) and hasattr(c, "__members__"):
        return any(truth(eq(m.value, x)) for m in c)
    if tc.__module__ == "lxml.etree" and symbolic(x):
        if tc.__name__ == "_Attrib":
            return contains(c.keys(), x)
    return x in c


def not_contains(c, x):
    r = contains(c, x)
    if isinstance(r, SymBool):
        return mkbool(NOT(r))
    return not r


def not_(x):
    if type(x) is SymBool:
        return mkbool(NOT(x))
    return not x


_CMP = {
    "Eq": eq,
    "NotEq": ne,
    "Lt": lt,
    "LtE": le,
    "Gt": gt,
    "GtE": ge,
    "In": lambda a, b: contains(b, a),
    "NotIn": lambda a, b: not_contains(b, a),
    "Is": lambda a, b: a is b,
    "IsNot": lambda a, b: a is not b,
}


def chain(left, ops, *rest):
    for o, f in zip(ops[:-1], rest[:-1]):
        right = f()
        r = _CMP[o](left, right)
        if not r:
            return r
        left = right
    return _CMP[ops[-1]](left, rest[-1]())


# ------------------------------------------------------------ subscripts


def _one(x):
    return type(x) is str and len(x) == 1 and not has_tok(x)


def _char_map(d, ch, default):
    """d.get(ch, default) as one symbolic character, when d maps characters
    to characters; None if that does not apply."""
    e, dom = S.char_expr(ch)
    tab = {}
    for c in dom:
        c = chr(c)
        v = d.get(c, _MISSING)
        if v is _MISSING:
            v = c if default == ch else default
        if not _one(v):
            return None
        tab[c] = v
    for k in d:
        if type(k) is str and has_tok(k):
            return None
    return S.map_char(ch, tab.__getitem__)



def getitem(o, k):
    t = type(o)
    if t is dict or isinstance(o, dict):
        if t is dict and type(k) is str and len(k) == 1 and len(o) > 3 and has_tok(k):
            r = _char_map(o, k, None)
            if r is not None:
                return r
        return o[key(o, k)]
    if t is rex.SymMatch:
        return o[k]
    if isinstance(k, str) and not k.isascii() and has_tok(k):
        if hasattr(o, "keys"):
            ks = list(o.keys())
            for k0 in ks:
                if truth(eq(k0, k)):
                    return o[k0]
            raise KeyError(k)
        if isinstance(o, type) and hasattr(o, "__members__"):
            for k0 in o.__members__:
                if truth(eq(k0, k)):
                    return o[k0]
            raise KeyError(k)
    return o[k]


def chk_key(k):
    if symbolic(k):
        raise Inconclusive("symbolic key in an unsupported store position")
    return k


def mkdict(pairs):
    d = {}
    for p in pairs:
        if len(p) == 1:
            for k, v in p[0].items():
                d[key(d, k)] = v
        else:
            d[key(d, p[0])] = p[1]
    return d


def mkset(items):
    s = set()
    for x in items:
        s.add(key(s, x))
    return s


_SETT = (set, frozenset, type({}.keys()), type({}.items()))


def binop(op, a, b):
    if op == "Mod":
        if isinstance(a, str):
            return a % b
        return a % b
    if type(a) in _SETT and type(b) in _SETT and (symbolic(a) or symbolic(b)):
        return set_op(op, a, b)
    if op == "Sub":
        return a - b
    if op == "BitOr":
        if isinstance(a, dict) and isinstance(b, dict):
            return mkdict([(a,), (b,)])
        return a | b
    if op == "BitAnd":
        return a & b
    return a ^ b


def set_op(op, a, b):
    r = set()
    if op in ("Sub", "BitXor"):
        for x in a:
            if not truth(contains(b if type(b) is not list else b, x)):
                r.add(x)
        if op == "BitXor":
            for x in b:
                if not truth(contains(a, x)):
                    r.add(key(r, x))
    elif op == "BitOr":
        for x in a:
            r.add(key(r, x))
        for x in b:
            r.add(key(r, x))
    else:
        for x in a:
            if truth(contains(b, x)):
                r.add(x)
    return r


# ------------------------------------------------------------------ calls

SPECIAL = {}


def special(*fs):
    def deco(h):
        for f in fs:
            SPECIAL[f] = h
        return h

    return deco


def wrap_cb(f):
    """A callback handed to native code: route builtins through call()."""
    if f is None or isinstance(f, (types.FunctionType, types.MethodType)):
        g = getattr(f, "__func__", f)
        if f is None or "__sx_call__" in getattr(g, "__globals__", {}):
            return f
    return lambda *a, **k: call(f, *a, **k)


class SymHash:
    """hash(x) kept as its argument; only used while a harness compares hashes."""

    active = False

    def __init__(self, arg):
        self.arg = arg

    def _bin(self, o, op):
        return SymHash((op, self.arg, o.arg if isinstance(o, SymHash) else o))

    def __add__(self, o):
        return self._bin(o, "+")

    def __radd__(self, o):
        return self._bin(o, "+r")

    def __xor__(self, o):
        return self._bin(o, "^")

    def __mul__(self, o):
        return self._bin(o, "*")

    __rmul__ = __mul__


@special(builtins.hash)
def _hash(f, x):
    if SymHash.active:
        t = type(x)
        if t.__module__.startswith(("brel", "harness")):
            return t.__hash__(x)
        if t in (tuple, frozenset):
            return SymHash(("seq",) + tuple(_hash(f, y) for y in x))
        return SymHash(x)
    return 0


def hash_equal(a, b):
    SymHash.active = True
    try:
        return _heq(_hash(hash, a), _hash(hash, b))
    finally:
        SymHash.active = False


def _heq(a, b):
    if isinstance(a, SymHash) and isinstance(b, SymHash):
        return _heq(a.arg, b.arg)
    if type(a) is tuple and type(b) is tuple:
        if len(a) != len(b):
            return False
        return mkbool(AND(*[_b(_heq(x, y)) for x, y in zip(a, b)]))
    if isinstance(a, SymHash) or isinstance(b, SymHash):
        return False
    r = eq(a, b)
    return r if isinstance(r, (bool, SymBool)) else bool(r)


_OWN = ("brel", "harness")


@special(builtins.isinstance)
def _isinstance(f, x, t):
    if type(x) in SYM:
        ts = t if isinstance(t, tuple) else (t,)
        if isinstance(t, types.UnionType):
            ts = t.__args__
        for u in ts:
            if isinstance(u, tuple):
                if _isinstance(f, x, u):
                    return True
                continue
            if type(x) is SymBool and u in (bool, int):
                return True
            if type(x) is SymInt and u is int:
                return True
            if type(x) is SymNum and u is {"float": float, "decimal": decimal.Decimal}.get(x.kind):
                return True
            if u is object:
                return True
        return False
    if isinstance(x, rex.SymMatch) and t is re.Match:
        return True
    return isinstance(x, t)


@special(builtins.type)
def _type(f, *a):
    if len(a) == 1:
        x = a[0]
        if type(x) is SymBool:
            return bool
        if type(x) is SymInt:
            return int
        if type(x) is SymNum:
            return {"float": float, "decimal": decimal.Decimal}[x.kind]
        return type(x)
    return type(*a)


@special(builtins.int)
def _int(f, *a, **k):
    if not a:
        return int(**k)
    x = a[0]
    if isinstance(x, str):
        if has_tok(x):
            return S.to_int(x, *(a[1:] or ([k["base"]] if "base" in k else [])))
        return int(*a, **k)
    if type(x) is SymInt:
        return x
    if type(x) is SymBool:
        return _wrap(_num(x)[0], "int")
    if type(x) is SymNum:
        return x.trunc()
    if len(a) == 1 and type(x).__module__.startswith(_OWN) and hasattr(type(x), "__int__"):
        return type(x).__int__(x)
    return int(*a, **k)


@special(builtins.float)
def _float(f, *a):
    if not a:
        return 0.0
    x = a[0]
    if isinstance(x, str) and has_tok(x):
        return S.to_real(x, "float")
    if type(x) in (SymInt, SymBool):
        e, _ = _num(x)
        return _wrap(z3.ToReal(e), "float")
    if type(x) is SymNum:
        return _wrap(x.expr, "float")
    if type(x).__module__.startswith(_OWN) and hasattr(type(x), "__float__"):
        return type(x).__float__(x)
    return float(*a)


@special(decimal.Decimal)
def _decimal(f, *a, **k):
    if a:
        x = a[0]
        if isinstance(x, str) and has_tok(x):
            return S.to_real(x, "decimal")
        if type(x) in (SymInt, SymBool):
            e, _ = _num(x)
            return _wrap(z3.ToReal(e), "decimal")
        if type(x) is SymNum:
            return _wrap(x.expr, "decimal")
    return decimal.Decimal(*a, **k)


import fractions


@special(fractions.Fraction)
def _fraction(f, a=0, b=None):
    if symbolic(a) or symbolic(b):
        x = _decimal(decimal.Decimal, a)
        x = _wrap(_num(x)[0], "fraction") if isinstance(x, SymNum) else fractions.Fraction(x)
        return x if b is None else x / b
    return fractions.Fraction(a, b)


@special(builtins.str)
def _str(f, *a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        t = type(x)
        if t is str:
            return x
        if t in (list, tuple, dict, set, frozenset) and symbolic(x, 6):
            return sym_repr(x)
        return str(x)
    return str(*a, **k)


@special(builtins.repr)
def _repr(f, x):
    if symbolic(x, 6):
        return sym_repr(x)
    return repr(x)


def sym_repr(x):
    """repr for containers holding symbolic strings (quotes are not escaped)."""
    t = type(x)
    if t is str:
        if not has_tok(x):
            return repr(x)
        for ch in x:
            if S.decide(S.char_in(ch, lambda c: chr(c) in "'\\" or not chr(c).isprintable())):
                raise Inconclusive("repr of a symbolic string with quotes or controls")
        return "'" + x + "'"
    if t is list:
        return "[" + ", ".join(sym_repr(y) for y in x) + "]"
    if t is tuple:
        return "(" + ", ".join(sym_repr(y) for y in x) + (",)" if len(x) == 1 else ")")
    if t is dict:
        return "{" + ", ".join(sym_repr(k) + ": " + sym_repr(v) for k, v in x.items()) + "}"
    if t is set:
        return "{" + ", ".join(sym_repr(y) for y in x) + "}" if x else "set()"
    return repr(x)


@special(builtins.bool)
def _bool(f, *a):
    if a and type(a[0]) is SymBool:
        return a[0]
    if a and type(a[0]).__module__.startswith(_OWN) and hasattr(type(a[0]), "__bool__"):
        return type(a[0]).__bool__(a[0])
    return bool(*a)


@special(builtins.sorted)
def _sorted(f, it, *, key=None, reverse=False):
    xs = list(it)
    _sort(xs, key, reverse)
    return xs


def _sort(xs, keyf, reverse):
    """Stable sort deciding comparisons symbolically (insertion sort)."""
    ks = [call(keyf, x) if keyf is not None else x for x in xs]
    if not any(symbolic(k) for k in ks) and all(
        type(k) in (str, int, float, bool, tuple) for k in ks
    ):
        idx = sorted(range(len(xs)), key=lambda i: ks[i], reverse=reverse)
    else:
        idx = []
        for i in range(len(xs)):
            j = len(idx)
            while j > 0:
                a, b = ks[idx[j - 1]], ks[i]
                # stable: move left only if strictly smaller (or larger)
                less = lt(a, b) if reverse else lt(b, a)
                if truth(less):
                    j -= 1
                else:
                    break
            idx.insert(j, i)
    xs[:] = [xs[i] for i in idx]


@special(builtins.max, builtins.min)
def _minmax(f, *a, key=None, default=_MISSING):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not xs:
        if default is _MISSING:
            return f(xs)
        return default
    best = xs[0]
    kb = call(key, best) if key else best
    for x in xs[1:]:
        k = call(key, x) if key else x
        if truth(gt(k, kb) if f is max else lt(k, kb)):
            best, kb = x, k
    return best


@special(builtins.sum)
def _sum(f, it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


@special(builtins.map)
def _map(f, g, *its):
    return map(wrap_cb(g), *its)


@special(builtins.filter)
def _filter(f, g, it):
    return filter(wrap_cb(g), it)


@special(functools.reduce)
def _reduce(f, g, *a):
    return functools.reduce(wrap_cb(g), *a)


@special(itertools.starmap, itertools.takewhile, itertools.dropwhile, itertools.filterfalse)
def _starmap(f, g, it):
    return f(wrap_cb(g), it)


@special(itertools.groupby)
def _groupby(f, it, key=None):
    xs = list(it)
    out = []
    cur = None
    for x in xs:
        k = call(key, x) if key is not None else x
        if cur is None or not truth(eq(cur[0], k)):
            cur = (k, [])
            out.append(cur)
        cur[1].append(x)
    return iter([(k, iter(v)) for k, v in out])


@special(functools.cmp_to_key, functools.partial, functools.wraps, functools.update_wrapper)
def _passf(f, *a, **k):
    return f(*a, **k)


# Results that functions cache are kept for one path, by the (symbolic) equality of the arguments.
_MEMO = """
def memo(fn):
    @functools.wraps(fn)
    def wrapper(*a, **k):
        if CTX.engine is None:
            return fn(*a, **k)
        table = CTX.engine.memo.setdefault(id(wrapper), [])
        for a2, k2, r in table:
            if len(a2) == len(a) and list(k2) == list(k) and truth(eq(a2, a)) and truth(eq(k2, k)):
                return r
        r = fn(*a, **k)
        table.append((a, k, r))
        return r

    wrapper.cache_clear = lambda: CTX.engine.memo.pop(id(wrapper), None)
    return wrapper
"""


def memo(fn):
    g = {"__sx_call__": call, "functools": functools, "CTX": CTX, "truth": truth, "eq": eq}
    exec(_MEMO, g)
    return g["memo"](fn)


@special(functools.lru_cache, functools.cache)
def _lru(f, fn=None, *a, **k):
    if isinstance(fn, types.FunctionType):
        return memo(fn)
    return memo


def decorator(d):
    """What a decorator expression stands for."""
    return memo if d is functools.lru_cache or d is functools.cache else d


@special(builtins.dict)
def _dict(f, *a, **k):
    d = {}
    if a:
        src = a[0]
        if hasattr(src, "keys"):
            for x in list(src.keys()):
                d[key(d, x)] = getitem(src, x)
        else:
            for x, v in src:
                d[key(d, x)] = v
    for x, v in k.items():
        d[key(d, x)] = v
    return d


@special(collections.OrderedDict)
def _odict(f, *a, **k):
    return collections.OrderedDict(_dict(f, *a, **k))


@special(collections.defaultdict)
def _ddict(f, *a, **k):
    fac = a[0] if a else None
    return collections.defaultdict(fac, _dict(f, *a[1:], **k))


@special(collections.Counter)
def _counter(f, *a, **k):
    c = collections.Counter()
    if a:
        src = a[0]
        if hasattr(src, "keys"):
            for x in src:
                c[key(c, x)] += src[x]
        else:
            for x in src:
                kk = key(c, x)
                c[kk] += 1
    return c


@special(builtins.set, builtins.frozenset)
def _set(f, *a):
    s = mkset(a[0]) if a else set()
    return s if f is set else frozenset(s)


@special(dict.fromkeys)
def _fromkeys(f, it, v=None):
    d = {}
    for x in it:
        d[key(d, x)] = v
    return d


@special(builtins.list, builtins.tuple)
def _seq(f, *a):
    return f(*a)


@special(builtins.len)
def _len(f, x):
    if type(x).__module__.startswith(_OWN) and hasattr(type(x), "__len__"):
        return type(x).__len__(x)
    return len(x)


@special(builtins.ord)
def _ordf(f, ch):
    from .core import char_expr

    e, d = char_expr(ch)
    return e if d is None else SymInt(e)


@special(builtins.chr)
def _chrf(f, i):
    if type(i) is SymInt:
        return chr(concretize_int(i))
    return chr(i)


@special(builtins.round)
def _round(f, x, n=None):
    return round(x) if n is None else round(x, n)


@special(builtins.abs, builtins.divmod, builtins.pow, builtins.iter, builtins.next,
         builtins.enumerate, builtins.zip, builtins.any, builtins.all, builtins.reversed,
         builtins.print, builtins.getattr, builtins.hasattr, builtins.setattr, builtins.delattr, builtins.id,
         builtins.callable, builtins.issubclass, builtins.range, builtins.slice,
         builtins.format, builtins.object, builtins.property, builtins.staticmethod,
         builtins.classmethod, itertools.chain, itertools.chain.from_iterable, itertools.product,
         itertools.count, itertools.islice, itertools.combinations, itertools.permutations, itertools.accumulate,
         itertools.repeat, itertools.zip_longest, itertools.tee, collections.deque, collections.namedtuple,
         copy.copy, math.isnan, math.isinf, builtins.bytes, builtins.vars, builtins.dir)
def _pass(f, *a, **k):
    if f is math.isnan or f is math.isinf:
        if a and type(a[0]) in SYM:
            return False
    if f is print:
        return None
    return f(*a, **k)


@special(copy.deepcopy)
def _deepcopy(f, x, memo=None):
    return copy.deepcopy(x, memo)


for _c in SYM:
    _c.__deepcopy__ = lambda self, memo: self
    _c.__copy__ = lambda self: self


@special(math.floor, math.ceil, math.trunc)
def _floor(f, x):
    if type(x) is SymInt:
        return x
    if type(x) is SymNum:
        if f is math.trunc:
            return x.trunc()
        if f is math.floor:
            return _wrap(z3.ToInt(x.expr), "int")
        return _wrap(-z3.ToInt(-x.expr), "int")
    return f(x)


@special(math.isclose)
def _isclose(f, a, b, *, rel_tol=1e-09, abs_tol=0.0):
    if not (symbolic(a) or symbolic(b)):
        return f(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    d = abs(a - b)
    m = _minmax(max, abs(a), abs(b))
    import fractions
    tol = _minmax(max, m * rel_tol if not symbolic(m) else m * rel_tol, abs_tol)
    return d <= tol


# strings ---------------------------------------------------------------

_STR_PASS = {
    "join", "format", "encode", "center", "ljust", "rjust", "__len__", "__str__",
    "__add__", "__mul__", "__iter__", "__getitem__", "format_map", "__format__",
}
_STR_BOOL = {
    "startswith", "endswith", "isdigit", "isdecimal", "isnumeric", "isalpha", "isalnum",
    "isspace", "isascii", "isidentifier", "islower", "isupper",
}
_STR_FN = {
    "find", "rfind", "index", "rindex", "count", "strip", "lstrip", "rstrip", "split", "rsplit",
    "partition", "rpartition", "splitlines", "replace", "translate", "lower", "upper", "casefold",
    "swapcase", "capitalize", "removeprefix", "removesuffix", "zfill",
}


def str_method(name, self, a, k):
    if name in _STR_PASS:
        if name == "format" and (symbolic(a) or symbolic(k)):
            a = tuple(_str(str, x) if isinstance(x, SYM) and type(x) is not SymInt else x for x in a)
            if has_tok(self) and S.decide(
                OR(*[S.in_set(c, "{}") for c in self if has_tok(c)])
            ):
                raise Inconclusive("symbolic format template")
        return getattr(self, name)(*a, **k)
    if not (has_tok(self) or any(symbolic(x) for x in a) or (k and symbolic(k))):
        return getattr(self, name)(*a, **k)
    if name in _STR_BOOL:
        return mkbool(getattr(S, name)(self, *a, **k))
    if name in _STR_FN:
        return getattr(S, name)(self, *a, **k)
    if name == "__eq__":
        return eq(self, a[0])
    if name == "__contains__":
        return contains(self, a[0])
    if name == "title":
        out, prev = [], False
        for ch in self:
            out.append(S.map_char(ch, str.lower if prev else str.upper))
            prev = S.decide(S.char_in(ch, lambda c: chr(c).isalpha()))
        return "".join(out)
    raise Inconclusive("str.%s on a symbolic string" % name)


# containers --------------------------------------------------------------


def list_method(name, self, a, k):
    if name == "sort":
        return _sort(self, k.get("key"), k.get("reverse", False))
    if name in ("append", "extend", "insert", "pop", "reverse", "clear", "copy", "__len__", "__iter__", "appendleft", "popleft", "extendleft", "rotate"):
        return getattr(self, name)(*a, **k)
    if name in ("index", "remove", "count", "__contains__", "__eq__"):
        x = a[0]
        if name == "__eq__":
            return eq(self, x)
        if name == "__contains__":
            return contains(self, x)
        if not isinstance(x, (str, tuple, list) + SYM):
            return getattr(self, name)(*a)
        if name == "count":
            return sum(1 for y in list(self) if y is x or truth(eq(y, x)))
        for i, y in enumerate(self):
            if i < (a[1] if len(a) > 1 else 0):
                continue
            if y is x or truth(eq(y, x)):
                if name == "index":
                    return i
                del self[i]
                return None
        raise ValueError("x not in list")
    return getattr(self, name)(*a, **k)


def dict_method(name, self, a, k):
    if name in ("get", "__getitem__") and type(a[0]) is str and len(a[0]) == 1 and len(self) > 3 and has_tok(a[0]):
        r = _char_map(self, a[0], a[1] if len(a) > 1 else None)
        if r is not None:
            return r
    if name in ("get", "pop", "setdefault", "__getitem__", "__setitem__", "__delitem__", "__contains__", "move_to_end"):
        kk = key(self, a[0])
        return getattr(self, name)(kk, *a[1:], **k)
    if name in ("update", "__ior__"):
        if type(self) is collections.Counter:
            if a and (symbolic(a[0]) or symbolic(self)):
                for x in a[0]:
                    self[key(self, x)] += a[0][x] if isinstance(a[0], dict) else 1
                return None
            return self.update(*a, **k)
        src = _dict(dict, *a, **k)
        for x, v in src.items():
            self[key(self, x)] = v
        return None
    if name == "fromkeys":
        return _fromkeys(None, *a)
    return getattr(self, name)(*a, **k)


def set_method(name, self, a, k):
    if name in ("add", "remove", "discard", "__contains__"):
        return getattr(self, name)(key(self, a[0]))
    if name == "update":
        for it in a:
            for x in list(it):
                self.add(key(self, x))
        return None
    others = [list(x) for x in a]
    if name in ("union", "intersection", "difference", "symmetric_difference", "issubset", "issuperset", "isdisjoint",
                "intersection_update", "difference_update", "symmetric_difference_update"):
        if not symbolic(self) and not any(symbolic(x) for x in others):
            return getattr(self, name)(*others)
        others = [mkset(x) for x in others]
        if name == "issubset":
            return all(truth(contains(others[0], x)) for x in self)
        if name == "issuperset":
            return all(truth(contains(self, x)) for x in others[0])
        if name == "isdisjoint":
            return not any(truth(contains(self, x)) for x in others[0])
        op = {"u": "BitOr", "i": "BitAnd", "d": "Sub", "s": "BitXor"}[name[0]]
        r = set(self)
        for o in others:
            r = set_op(op, r, o)
        if name.endswith("_update"):
            self.clear()
            for x in r:
                self.add(x)
            return None
        return r if type(self) is set else frozenset(r)
    return getattr(self, name)(*a, **k)


# regex ---------------------------------------------------------------------


def _re(name):
    def h(f, pattern, *a, **k):
        s_ix = 1 if name in ("sub", "subn") else 0
        if symbolic(a) or symbolic(pattern) or symbolic(k):
            return getattr(rex, name)(pattern, *a, **k)
        if name in ("sub",) and a and callable(a[0]):
            return f(pattern, *a, **k)
        return f(pattern, *a, **k)

    return h


for _n in ("match", "fullmatch", "search", "finditer", "findall", "sub", "split"):
    SPECIAL[getattr(re, _n)] = _re(_n)


def pattern_method(name, self, a, k):
    if symbolic(a) or symbolic(k):
        return getattr(rex, name)(self, *a, **k)
    return getattr(self, name)(*a, **k)


@special(re.escape)
def _reescape(f, s):
    if has_tok(s):
        raise Inconclusive("re.escape of symbolic text")
    return f(s)


# lxml -----------------------------------------------------------------------

import lxml.etree as ET

_PRED = re.compile(r"\[@([^\]=\s]+)\s*=\s*(['\"])(.*?)\2\]")


def _attr_name(n, nsmap):
    if ":" in n and not n.startswith("{"):
        p, l = n.split(":", 1)
        if nsmap and p in nsmap:
            return "{%s}%s" % (nsmap[p], l)
    return n


def _attrs_symbolic(el):
    return True


_ANYPRED = re.compile(r"\[([^\]]*)\]")
_ATTRREF = re.compile(r"@([\w:.*{}-]+)")


def _pred_attrs_symbolic(el, path, nsmap):
    """May a predicate of this path look at a symbolic value?"""
    preds = _ANYPRED.findall(path)
    names = set()
    text = False
    for p in preds:
        names.update(_ATTRREF.findall(p))
        if "text()" in p or re.search(r"(^|[^\w.])\.([^\w.]|$)", p) or re.match(r"^\s*[\w:]+\s*=", p):
            text = True
    if not names and not text:
        return False
    root = el.getroottree().getroot() if hasattr(el, "getroottree") else el.getroot()
    keys = {_attr_name(n, nsmap) for n in names}
    for e in root.iter():
        if not isinstance(e.tag, str):
            continue
        if text and ((e.text and has_tok(e.text)) or (e.tail and has_tok(e.tail))):
            return True
        for kk, v in e.attrib.items():
            if kk in keys or "*" in names:
                if has_tok(v):
                    return True
    return False


def _only_existence(path):
    return all(re.fullmatch(r"\s*@[\w:.-]+\s*", p) for p in _ANYPRED.findall(path))


def lxml_find(self, name, a, k, run=None):
    """find/findall/iterfind/xpath with attribute predicates decided by us."""
    path = a[0]
    nsmap = k.get("namespaces") or (a[1] if len(a) > 1 else None)
    if run is None:
        run = lambda: getattr(self, name)(*a, **k)
    if not isinstance(path, str) or ("[" not in path and not has_tok(path)):
        return run()
    if "[" not in path:
        return getattr(self, name)(concretize(path), *a[1:], **k)
    if not has_tok(path) and (_only_existence(path) or not _pred_attrs_symbolic(self, path, nsmap)):
        return run()
    preds = list(_PRED.finditer(path))
    if len(preds) != 1 or preds[0].end() != len(path) or "[" in path[: preds[0].start()]:
        if has_tok(path) and not _pred_attrs_symbolic(self, concretize(path), nsmap):
            return getattr(self, name)(concretize(path), *a[1:], **k)
        raise Inconclusive("unsupported lxml predicate path " + path)
    m = preds[0]
    base = path[: m.start()]
    if has_tok(base):
        base = concretize(base)
    attr = _attr_name(m.group(1), nsmap)
    val = m.group(3)
    kw = {}
    if nsmap is not None:
        kw["namespaces"] = nsmap
    if name == "xpath":
        els = self.xpath(base, **kw)
    else:
        els = list(self.iterfind(base, **kw))
    out = []
    for e in els:
        v = e.get(attr)
        if v is not None and truth(eq(v, val)):
            if name == "find":
                return e
            if name == "findtext":
                return e.text or ""
            out.append(e)
    if name in ("find", "findtext"):
        return a[2] if len(a) > 2 else k.get("default")
    return iter(out) if name == "iterfind" else out


class SymXPath:
    """etree.XPath whose attribute predicates are decided by us."""

    def __init__(self, path, namespaces=None, **k):
        self.path = path
        self.ns = namespaces
        self.k = k
        self.native = None if has_tok(path) else ET.XPath(path, namespaces=namespaces, **k)

    def __call__(self, el, **kw):
        if self.native is not None and "[" not in self.path:
            return self.native(el, **kw)
        if kw:
            raise Inconclusive("XPath variables on symbolic data")
        k = {"namespaces": self.ns} if self.ns else {}
        return lxml_find(el, "xpath", (self.path,), k, run=lambda: self.native(el))


@special(ET.XPath, ET.ETXPath)
def _xpath_ctor(f, path, **k):
    if f is ET.ETXPath:
        if has_tok(path) or "[" in path:
            raise Inconclusive("ETXPath")
        return f(path, **k)
    return SymXPath(path, **k)


def _attr_lookup(e, n):
    if has_tok(n):
        for k0 in e.attrib.keys():
            if truth(eq(k0, n)):
                return k0
    return n


def lxml_method(self, name, a, k):
    if name in ("find", "findall", "iterfind", "xpath", "findtext"):
        return lxml_find(self, name, a, k)
    if name == "get" and a and has_tok(a[0]):
        return self.get(_attr_lookup(self, a[0]), *a[1:], **k)
    if name in ("iter", "iterchildren", "iterdescendants", "iterancestors", "getiterator") and symbolic(a):
        a = tuple(concretize(x) for x in a)
    return getattr(self, name)(*a, **k)


def _retext(el, table):
    """Replaces characters in all texts and attribute values of el; returns the undo list."""
    undo = []
    for e in el.iter():
        for n in ("text", "tail"):
            v = getattr(e, n)
            if v and has_tok(v):
                undo.append((e, n, v))
                setattr(e, n, v.translate(table))
        for n, v in e.attrib.items():
            if has_tok(v):
                undo.append((e, None, (n, v)))
                e.set(n, v.translate(table))
    return undo


@special(ET.tostring)
def _tostring(f, el, *a, **k):
    k2 = dict(k)
    k2["encoding"] = "unicode"
    uni = k.get("encoding") in ("unicode", str)
    k2.pop("xml_declaration", None)
    u = f(el, *a, **k2)
    if not has_tok(u):
        return f(el, *a, **k)
    # characters that are written as references are made concrete, the others stay symbolic
    table = {}
    for ch in sorted(set(u)):
        if has_tok(ch):
            if S.decide(S.char_in(ch, lambda c: c > 126 or chr(c) in "<>&\"'\r\n\t")):
                table[ord(ch)] = S.concretize(ch)
        elif ord(ch) > 127 and not uni:
            raise Inconclusive("serialising non-ASCII text next to symbolic text")
    if table:
        undo = _retext(el, table)
        u = f(el, *a, **k2)
        r = f(el, *a, **k)
        for e, n, v in undo:
            if n is None:
                e.set(*v)
            else:
                setattr(e, n, v)
        if not has_tok(u):
            return r
        if not uni and any(ord(c) > 127 and not has_tok(c) for c in u):
            raise Inconclusive("serialising non-ASCII text next to symbolic text")
    return u if uni else u.encode("utf-8")


# dispatch ---------------------------------------------------------------------

TWINS = {}
PASS_MODULES = ("lxml", "typing", "abc", "enum", "dataclasses", "logging", "warnings", "collections.abc", "threading", "z3", "sx", "contextlib")
NATIVE_MODELS = {}  # (module, qualname) -> handler; set by harnesses


def _writestr(f, name, data, *a, **k):
    # the content is text like any other, only the name matters
    return f(concretize(name), data, *a, **k)


NATIVE_MODELS["zipfile", "ZipFile.writestr"] = _writestr
NATIVE_MODELS["", "BufferedWriter.write"] = NATIVE_MODELS["_io", "BytesIO"] = lambda f, *a, **k: f(*a, **k)


def _is_instr_fn(f):
    return "__sx_call__" in f.__globals__


_UNORDERED = {set, frozenset, len, isinstance, bool, type, id, hash, callable, repr, any, all, sum, print}


def _ordered(f, a):
    """Arguments with sets in the order of the schedule, for functions written in C that go through them."""
    if isinstance(f, type) and f not in _UNORDERED and f.__module__ in ("builtins", "collections", "itertools") or type(f) is _B and f not in _UNORDERED and type(f.__self__) not in (set, frozenset):
        if f in (isinstance, issubclass) or getattr(f, "__name__", "") in ("append", "add", "get", "setdefault", "insert", "count", "index", "remove", "getattr", "setattr", "hasattr", "deepcopy", "copy"):
            return a
        return tuple(order.iterate(x) for x in a)
    return a


def call(f, /, *a, **k):
    t = type(f)
    if order.ACTIVE[0] is not None:
        if t is _B and f.__name__ == "pop" and type(f.__self__) is set and len(f.__self__) > 1:
            x = order.iterate(f.__self__)[0]
            f.__self__.remove(x)
            return x
        a = _ordered(f, a)
    if t is types.FunctionType:
        if "__sx_call__" in f.__globals__:
            return f(*a, **k)
        h = SPECIAL.get(f)
        if h is not None:
            return h(f, *a, **k)
        return native(f, a, k)
    if t is types.MethodType:
        fn = f.__func__
        if type(fn) is types.FunctionType and "__sx_call__" in fn.__globals__:
            return f(*a, **k)
        h = SPECIAL.get(fn)
        if h is not None:
            return h(fn, f.__self__, *a, **k)
        if type(f.__self__).__module__.startswith("lxml"):
            return lxml_method(f.__self__, f.__name__, a, k)
        return native(f, a, k)
    if t is _B:
        s = f.__self__
        ts = type(s)
        if ts is types.ModuleType or s is None:
            h = SPECIAL.get(f)
            if h is not None:
                return h(f, *a, **k)
            return native(f, a, k)
        if ts is str:
            return str_method(f.__name__, s, a, k)
        if ts is list or ts is collections.deque:
            return list_method(f.__name__, s, a, k)
        if isinstance(s, dict):
            return dict_method(f.__name__, s, a, k)
        if ts is set or ts is frozenset:
            return set_method(f.__name__, s, a, k)
        if ts is re.Pattern:
            return pattern_method(f.__name__, s, a, k)
        if ts.__module__.startswith("lxml"):
            return lxml_method(s, f.__name__, a, k)
        if ts is tuple:
            return list_method(f.__name__, s, a, k)
        if ts is bytes:
            if f.__name__ in ("decode", "join"):
                return f(*a, **k)
        h = SPECIAL.get(f)
        if h is not None:
            return h(f, *a, **k)
        if ts is type:
            return native(f, a, k)
        return native(f, a, k)
    if isinstance(f, type):
        h = SPECIAL.get(f)
        if h is not None:
            return h(f, *a, **k)
        mod = f.__module__
        if mod.startswith("brel") or mod.startswith("harness") or issubclass(f, BaseException):
            if hasattr(f, "__members__") and len(a) == 1 and symbolic(a[0]):
                for m in f:
                    if truth(eq(m.value, a[0])):
                        return m
                raise ValueError("%r is not a valid %s" % (a[0], f.__qualname__))
            return f(*a, **k)
        return native(f, a, k)
    if t is types.MethodDescriptorType or t is types.WrapperDescriptorType:
        own = f.__objclass__
        if a and own in (str, list, dict, set, frozenset):
            return call(getattr(a[0], f.__name__), *a[1:], **k)
        return native(f, a, k)
    if t is types.MethodWrapperType:
        s, n = f.__self__, f.__name__
        if n in ("__str__", "__repr__", "__int__", "__float__", "__bool__", "__len__", "__hash__", "__iter__"):
            g = {"__str__": str, "__repr__": repr, "__int__": int, "__float__": float, "__bool__": bool, "__len__": len, "__hash__": hash, "__iter__": iter}[n]
            return call(g, s)
        if n in ("__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__"):
            if isinstance(s, str) and not isinstance(a[0], str):
                return f(*a)
            return {"__eq__": eq, "__ne__": ne, "__lt__": lt, "__le__": le, "__gt__": gt, "__ge__": ge}[n](s, a[0])
        if n == "__contains__":
            return contains(s, a[0])
        if n == "__getitem__":
            return getitem(s, a[0])
        if n in ("__add__", "__mod__") and isinstance(s, str):
            return s + a[0] if n == "__add__" else binop("Mod", s, a[0])
        return native(f, a, k)
    # lxml's cython functions and methods
    n = getattr(f, "__name__", None)
    s = getattr(f, "__self__", None)
    try:
        h = SPECIAL.get(f)
    except TypeError:
        h = None
    if h is not None:
        return h(f, *a, **k)
    if type(s) is re.Pattern:
        return pattern_method(n, s, a, k)
    if n is not None and s is not None and type(s).__module__.startswith("lxml"):
        return lxml_method(s, n, a, k)
    if n is not None and type(s) in (str, list, dict, set, tuple):
        return call(getattr(s, n), *a, **k)
    return native(f, a, k)


def native(f, a, k):
    mod = getattr(f, "__module__", None) or ""
    qn = getattr(f, "__qualname__", None) or getattr(f, "__name__", "")
    h = NATIVE_MODELS.get((mod, qn))
    if h is not None:
        return h(f, *a, **k)
    if mod in TWIN_MODULES and (symbolic(a) or symbolic(k)):
        tw = twin(f, mod, qn)
        if tw is not None:
            return tw(*a, **k)
    top = mod.split(".")[0]
    if top in PASS_MODULES or mod.startswith(PASS_MODULES):
        return f(*a, **k)
    if (a and symbolic(a)) or (k and symbolic(k)):
        s = getattr(f, "__self__", None)
        if isinstance(s, (types.GeneratorType,)):
            return f(*a, **k)
        if CTX.engine is None:
            return f(*a, **k)
        CTX.engine.covers.setdefault("native-concretized:%s.%s" % (mod, qn), 0)
        CTX.engine.covers["native-concretized:%s.%s" % (mod, qn)] += 1
        return f(*[concretize(x) for x in a], **{x: concretize(y) for x, y in k.items()})
    return f(*a, **k)


@special(urllib.parse.quote)
def _quote(f, s, safe="/", encoding=None, errors=None):
    if not isinstance(s, str) or not S.has_tok(s) or S.has_tok(safe) or encoding or errors:
        return f(s, safe, encoding, errors)
    return "".join([S.map_char(c, lambda x: f(x, safe)) for c in s])


TWIN_MODULES = {"posixpath", "urllib.parse", "genericpath", "dateutil.parser._parser", "dateutil.parser.isoparser", "string"}


def twin(f, mod, qn):
    if mod not in TWIN_MODULES or "." in qn:
        return None
    from . import instr

    m = instr.twin_module(mod)
    return getattr(m, qn, None)


try:
    from convertdate import indian_civil
except ImportError:
    pass
else:

    @special(indian_civil.to_gregorian)
    def _to_gregorian(f, *a):
        """A library function: case split over its arguments."""
        return f(*[concretize_int(x) if type(x) is SymInt else x for x in a])
