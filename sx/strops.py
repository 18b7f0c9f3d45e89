"""Operations on strings that contain symbolic characters."""
import z3

from .core import (
    AND,
    NOT,
    OR,
    E,
    CTX,
    Inconclusive,
    SymInt,
    SymNum,
    TOKENS,
    _wrap,
    char_expr,
    has_tok,
    mkbool,
    truth,
    PathAbort,
)

# ------------------------------------------------------------- characters


def dom_of(ch):
    e, d = char_expr(ch)
    return d if d is not None else frozenset((e,))


def char_eq(a, b):
    """z3 bool / python bool: two one-character strings are equal"""
    if a == b:
        return True
    ea, da = char_expr(a)
    eb, db = char_expr(b)
    if da is None and db is None:
        return ea == eb
    if da is None:
        return False if ea not in db else eb == ea
    if db is None:
        return False if eb not in da else ea == eb
    if not (da & db):
        return False
    return ea == eb


def _ranges(cps):
    cps = sorted(cps)
    out = []
    for c in cps:
        if out and out[-1][1] == c - 1:
            out[-1][1] = c
        else:
            out.append([c, c])
    return out


def char_in(ch, pred):
    """pred: code point -> bool, evaluated natively over the finite domain."""
    e, d = char_expr(ch)
    if d is None:
        return bool(pred(e))
    yes = frozenset(c for c in d if pred(c))
    if not yes:
        return False
    if len(yes) == len(d):
        return True
    no = d - yes
    # merge ranges: holes that are outside the domain may be included
    src, neg = (yes, False) if len(yes) <= len(no) else (no, True)
    other = no if not neg else yes
    rs = []
    cur = None
    for c in sorted(d):
        if c in src:
            if cur is None:
                cur = [c, c]
            else:
                cur[1] = c
        else:
            if cur is not None:
                rs.append(cur)
            cur = None
    if cur is not None:
        rs.append(cur)
    parts = []
    for lo, hi in rs:
        parts.append(e == lo if lo == hi else z3.And(e >= lo, e <= hi))
    r = parts[0] if len(parts) == 1 else z3.Or(*parts)
    return z3.Not(r) if neg else r


def in_set(ch, chars):
    s = frozenset(ord(c) for c in chars)
    return char_in(ch, lambda c: c in s)


def decide(e):
    if e is True or e is False:
        return e
    return E().decide(e)


def map_char(ch, fn):
    """Image of a character under fn: str -> str (one char to one char)."""
    e, d = char_expr(ch)
    if d is None:
        return fn(ch)
    img = {}
    for c in d:
        r = fn(chr(c))
        if len(r) != 1:
            # length changing image: split this case off
            if decide(e == c):
                return r
            continue
        img[c] = ord(r)
    offs = {}
    for c, r in img.items():
        offs.setdefault(r - c, []).append(c)
    if set(offs) == {0}:
        return ch
    expr = e
    for off, cs in offs.items():
        if off == 0:
            continue
        cond = char_in(ch, lambda c, cs=frozenset(cs): c in cs)
        expr = z3.If(cond, e + off, expr) if cond is not True else e + off
    return TOKENS.make(expr, frozenset(img.values()))


def concretize(s):
    """Case split a symbolic string into concrete ones (exhaustive)."""
    if not has_tok(s):
        return s
    out = []
    eng = E()
    for ch in s:
        e, d = char_expr(ch)
        if d is None:
            out.append(ch)
            continue
        for _ in range(len(d) + 1):
            from .core import _peek

            v = _peek(eng, e)
            if eng.decide(e == v):
                out.append(chr(v))
                break
        else:
            raise Inconclusive("character case split did not terminate")
    return "".join(out)


# ------------------------------------------------------------- predicates


def eq(a, b):
    """expr for a == b (both str)"""
    if a == b:
        return True
    if len(a) != len(b):
        return False
    cs = []
    for x, y in zip(a, b):
        c = char_eq(x, y)
        if c is False:
            return False
        if c is not True:
            cs.append(c)
    return AND(*cs)


def startswith(s, p, start=None, end=None):
    s = s[slice(start, end)]
    if isinstance(p, tuple):
        return OR(*[startswith(s, q) for q in p])
    if len(p) > len(s):
        return False
    return eq(s[: len(p)], p)


def endswith(s, p, start=None, end=None):
    s = s[slice(start, end)]
    if isinstance(p, tuple):
        return OR(*[endswith(s, q) for q in p])
    if len(p) > len(s):
        return False
    return eq(s[len(s) - len(p) :], p)


def contains(s, sub):
    n = len(sub)
    return OR(*[eq(s[i : i + n], sub) for i in range(0, len(s) - n + 1)])


def find(s, sub, start=None, end=None):
    lo, hi, _ = slice(start, end).indices(len(s))
    n = len(sub)
    for i in range(lo, hi - n + 1):
        if decide(eq(s[i : i + n], sub)):
            return i
    return -1


def rfind(s, sub, start=None, end=None):
    lo, hi, _ = slice(start, end).indices(len(s))
    n = len(sub)
    for i in range(hi - n, lo - 1, -1):
        if decide(eq(s[i : i + n], sub)):
            return i
    return -1


def index(s, sub, *a):
    r = find(s, sub, *a)
    if r < 0:
        raise ValueError("substring not found")
    return r


def rindex(s, sub, *a):
    r = rfind(s, sub, *a)
    if r < 0:
        raise ValueError("substring not found")
    return r


def count(s, sub, *a):
    s = s[slice(*a)] if a else s
    if sub == "":
        return len(s) + 1
    i = n = 0
    while i + len(sub) <= len(s):
        if decide(eq(s[i : i + len(sub)], sub)):
            n += 1
            i += len(sub)
        else:
            i += 1
    return n


def is_space(c):
    return chr(c).isspace()


def _stripset(chars):
    if chars is None:
        return is_space
    if has_tok(chars):
        raise Inconclusive("strip with symbolic character set")
    s = frozenset(ord(c) for c in chars)
    return lambda c: c in s


def lstrip(s, chars=None):
    p = _stripset(chars)
    i = 0
    while i < len(s) and decide(char_in(s[i], p)):
        i += 1
    return s[i:]


def rstrip(s, chars=None):
    p = _stripset(chars)
    i = len(s)
    while i > 0 and decide(char_in(s[i - 1], p)):
        i -= 1
    return s[:i]


def strip(s, chars=None):
    return rstrip(lstrip(s, chars), chars)


def split(s, sep=None, maxsplit=-1):
    if sep is None:
        out, cur, i = [], "", 0
        while True:
            while i < len(s) and decide(char_in(s[i], is_space)):
                i += 1
            if i >= len(s):
                break
            if maxsplit >= 0 and len(out) >= maxsplit:
                out.append(rstrip(s[i:]))
                break
            j = i
            while j < len(s) and not decide(char_in(s[j], is_space)):
                j += 1
            out.append(s[i:j])
            i = j
        return out
    if sep == "":
        raise ValueError("empty separator")
    out, i, last = [], 0, 0
    while i + len(sep) <= len(s):
        if 0 <= maxsplit <= len(out):
            break
        if decide(eq(s[i : i + len(sep)], sep)):
            out.append(s[last:i])
            i += len(sep)
            last = i
        else:
            i += 1
    out.append(s[last:])
    return out


def rsplit(s, sep=None, maxsplit=-1):
    if maxsplit < 0:
        return split(s, sep)
    if sep is None:
        parts = split(s)
        if len(parts) <= maxsplit + 1:
            return parts
        raise Inconclusive("rsplit(None, n) on a symbolic string")
    out, i, last = [], len(s), len(s)
    while i - len(sep) >= 0:
        if len(out) >= maxsplit:
            break
        if decide(eq(s[i - len(sep) : i], sep)):
            out.append(s[i:last])
            i -= len(sep)
            last = i
        else:
            i -= 1
    out.append(s[:last])
    return out[::-1]


def partition(s, sep):
    i = find(s, sep)
    if i < 0:
        return s, "", ""
    return s[:i], sep, s[i + len(sep) :]


def rpartition(s, sep):
    i = rfind(s, sep)
    if i < 0:
        return "", "", s
    return s[:i], sep, s[i + len(sep) :]


_LINEB = frozenset(ord(c) for c in "\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029")


def splitlines(s, keepends=False):
    out, cur, i = [], 0, 0
    while i < len(s):
        if decide(char_in(s[i], lambda c: c in _LINEB)):
            j = i + 1
            if (
                j < len(s)
                and decide(char_eq(s[i], "\r"))
                and decide(char_eq(s[j], "\n"))
            ):
                j += 1
            out.append(s[cur:j] if keepends else s[cur:i])
            cur = i = j
        else:
            i += 1
    if cur < len(s):
        out.append(s[cur:])
    return out


def replace(s, old, new, cnt=-1):
    if old == "":
        if cnt == 0:
            return s
        out, n = [], 0
        for ch in s:
            if cnt < 0 or n < cnt:
                out.append(new)
                n += 1
            out.append(ch)
        if cnt < 0 or n < cnt:
            out.append(new)
        return "".join(out)
    if len(old) == 1 and len(new) == 1 and cnt < 0 and not has_tok(old) and not has_tok(new):
        return "".join(map_char(ch, lambda c: new if c == old else c) for ch in s)
    out, i, n = [], 0, 0
    while i < len(s):
        if (cnt < 0 or n < cnt) and i + len(old) <= len(s) and decide(
            eq(s[i : i + len(old)], old)
        ):
            out.append(new)
            i += len(old)
            n += 1
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


def translate(s, table):
    out = []
    for ch in s:
        e, d = char_expr(ch)
        if d is None:
            out.append(ch.translate(table))
            continue
        out.append(map_char(ch, lambda c: c.translate(table)))
    return "".join(out)


def lower(s):
    return "".join(map_char(c, str.lower) for c in s)


def upper(s):
    return "".join(map_char(c, str.upper) for c in s)


def casefold(s):
    return "".join(map_char(c, str.casefold) for c in s)


def swapcase(s):
    return "".join(map_char(c, str.swapcase) for c in s)


def capitalize(s):
    if not s:
        return s
    return map_char(s[0], str.capitalize) + lower(s[1:])


def _all(s, p):
    if not s:
        return False
    return AND(*[char_in(c, lambda x: p(chr(x))) for c in s])


def isdigit(s):
    return _all(s, str.isdigit)


def isdecimal(s):
    return _all(s, str.isdecimal)


def isnumeric(s):
    return _all(s, str.isnumeric)


def isalpha(s):
    return _all(s, str.isalpha)


def isalnum(s):
    return _all(s, str.isalnum)


def isspace(s):
    return _all(s, str.isspace)


def isascii(s):
    return AND(*[char_in(c, lambda x: x < 128) for c in s])


def isidentifier(s):
    if not s:
        return False
    return AND(
        char_in(s[0], lambda x: chr(x).isidentifier()),
        *[char_in(c, lambda x: ("a" + chr(x)).isidentifier()) for c in s[1:]],
    )


def islower(s):
    return AND(
        AND(*[NOT(char_in(c, lambda x: chr(x).isupper() or chr(x).istitle())) for c in s]),
        OR(*[char_in(c, lambda x: chr(x).islower()) for c in s]),
    )


def isupper(s):
    return AND(
        AND(*[NOT(char_in(c, lambda x: chr(x).islower() or chr(x).istitle())) for c in s]),
        OR(*[char_in(c, lambda x: chr(x).isupper()) for c in s]),
    )


def removeprefix(s, p):
    return s[len(p) :] if decide(startswith(s, p)) else s


def removesuffix(s, p):
    return s[: len(s) - len(p)] if p and decide(endswith(s, p)) else s


def zfill(s, w):
    if len(s) >= w:
        return s
    if s and decide(in_set(s[0], "+-")):
        return s[0] + "0" * (w - len(s)) + s[1:]
    return "0" * (w - len(s)) + s


def lt(a, b):
    """expr: a < b lexicographically by code point"""
    for i in range(min(len(a), len(b))):
        pass
    # build from the right
    n = min(len(a), len(b))
    acc = len(a) < len(b)
    for i in range(n - 1, -1, -1):
        x, y = a[i], b[i]
        if x == y:
            continue
        ex, dx = char_expr(x)
        ey, dy = char_expr(y)
        if dx is None and dy is None:
            acc = ex < ey
            continue
        lo = ex < ey if (dx is not None or dy is not None) else ex < ey
        same = char_eq(x, y)
        acc = OR(lo, AND(same, acc))
    return acc


# --------------------------------------------------------------- numbers


def digit_val(ch):
    """z3 int / int value of a character known to be a decimal digit."""
    import unicodedata

    e, d = char_expr(ch)
    if d is None:
        return unicodedata.decimal(ch)
    digs = {c: unicodedata.decimal(chr(c), None) for c in d}
    offs = {}
    for c, v in digs.items():
        if v is not None:
            offs.setdefault(c - v, []).append(c)
    items = list(offs.items())
    expr = e - items[0][0]
    for off, cs in items[1:]:
        cond = char_in(ch, lambda c, cs=frozenset(cs): c in cs)
        expr = z3.If(cond, e - off, expr) if cond is not True else e - off
    return expr


def _digits_expr(digs):
    total = None
    n = len(digs)
    for i, ch in enumerate(digs):
        v = digit_val(ch)
        w = 10 ** (n - 1 - i)
        term = v * w
        total = term if total is None else total + term
    if isinstance(total, int):
        return total
    return _wrap(total, "int")


def _unders(s):
    """Remove PEP-515 underscores; returns None if misplaced."""
    out = []
    prev_digit = False
    i = 0
    while i < len(s):
        if decide(char_eq(s[i], "_")):
            if not prev_digit or i + 1 >= len(s):
                return None
            if not decide(char_in(s[i + 1], lambda c: chr(c).isdecimal())):
                return None
            prev_digit = False
        else:
            out.append(s[i])
            prev_digit = decide(char_in(s[i], lambda c: chr(c).isdecimal()))
        i += 1
    return "".join(out)


def to_int(s, base=10):
    if base != 10:
        return int(concretize(s), base)
    bad = lambda: ValueError("invalid literal for int() with base 10: %r" % (s,))
    t = strip(s)
    neg = False
    if t and decide(in_set(t[0], "+-")):
        neg = decide(char_eq(t[0], "-"))
        t = t[1:]
    if not t:
        raise bad()
    t = _unders(t)
    if t is None or not t:
        raise bad()
    if not decide(_all(t, str.isdecimal)):
        raise bad()
    v = _digits_expr(t)
    if not neg and isinstance(v, SymInt) and _ascii_decimals(t):
        v.src = t
    return -v if neg else v


def _ascii_decimals(t):
    """t is known to be decimal: is it also ASCII?"""
    for ch in t:
        e, d = char_expr(ch)
        for c in (ord(ch),) if d is None else d:
            if c > 127 and chr(c).isdecimal():
                return False
    return True


def _scan_float(s):
    """(neg, intdigits, fracdigits, exp) or 'special' or None"""
    t = strip(s)
    t = _unders(t)
    if t is None:
        return None
    neg = False
    if t and decide(in_set(t[0], "+-")):
        neg = decide(char_eq(t[0], "-"))
        t = t[1:]
    i = 0
    isd = lambda c: chr(c).isdecimal()
    while i < len(t) and decide(char_in(t[i], isd)):
        i += 1
    ip = t[:i]
    fp = ""
    if i < len(t) and decide(char_eq(t[i], ".")):
        j = i + 1
        while j < len(t) and decide(char_in(t[j], isd)):
            j += 1
        fp = t[i + 1 : j]
        i = j
    if not ip and not fp:
        low = lower(t)
        for w in ("inf", "infinity", "nan"):
            if len(low) == len(w) and decide(eq(low, w)):
                return ("special", neg, w)
        return None
    exp = 0
    if i < len(t) and decide(in_set(t[i], "eE")):
        j = i + 1
        eneg = False
        if j < len(t) and decide(in_set(t[j], "+-")):
            eneg = decide(char_eq(t[j], "-"))
            j += 1
        k = j
        while k < len(t) and decide(char_in(t[k], isd)):
            k += 1
        if k == j:
            return None
        exp = _digits_expr(t[j:k])
        if isinstance(exp, SymInt):
            from .core import concretize_int

            exp = concretize_int(exp)
        exp = -exp if eneg else exp
        i = k
    if i != len(t):
        return None
    return ("num", neg, ip, fp, exp)


def to_real(s, kind):
    """float(s) or Decimal(s) of a symbolic string."""
    r = _scan_float(s)
    if r is None:
        if kind == "float":
            raise ValueError("could not convert string to float: %r" % (s,))
        import decimal

        raise decimal.InvalidOperation([decimal.ConversionSyntax])
    if r[0] == "special":
        f = float(("-" if r[1] else "") + r[2])
        if kind == "decimal":
            import decimal

            return decimal.Decimal(("-" if r[1] else "") + r[2])
        return f
    _, neg, ip, fp, exp = r
    digs = ip + fp
    v = _digits_expr(digs)
    sh = exp - len(fp)
    ve = z3.ToReal(v.expr) if isinstance(v, SymInt) else z3.RealVal(v)
    if sh >= 0:
        ve = ve * z3.RealVal(10**sh)
    else:
        ve = ve / z3.RealVal(10 ** (-sh))
    if neg:
        ve = -ve
    return _wrap(ve, kind)


def int_to_str(x, zfill=0):
    """Decimal representation of a symbolic int; forks on sign and length."""
    src = getattr(x, "src", None)
    if src is not None:
        if len(src) <= zfill:
            return "0" * (zfill - len(src)) + src
        while len(src) > max(zfill, 1) and decide(char_eq(src[0], "0")):
            src = src[1:]
        return src
    neg = truth(x < 0)
    a = -x if neg else x
    if not isinstance(a, SymInt):
        s = str(a)
    else:
        n = 1
        while truth(a >= 10**n):
            n += 1
            if n > 30:
                raise Inconclusive("unbounded integer to str")
        out = []
        for i in range(n - 1, -1, -1):
            d = (a.expr / z3.IntVal(10**i)) % 10 if i < n - 1 or n == 1 else a.expr / z3.IntVal(10**i)
            lo = 1 if (i == n - 1 and n > 1) else 0
            out.append(TOKENS.make(z3.simplify(d + 48), frozenset(range(48 + lo, 58))))
        s = "".join(out)
    if zfill:
        s = "0" * (zfill - len(s) - (1 if neg else 0)) + s
    return "-" + s if neg else s
