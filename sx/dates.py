"""datetime.date and datetime.datetime with symbolic fields."""
import datetime

import z3

from . import strops as SO
from .core import AND, Inconclusive, SymBool, SymInt, SymNum, has_tok, mkbool, truth
from . import ops

_MDAYS = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)


def _days_in_month(y, m):
    """number of days of month m (1..12, possibly symbolic) of year y"""
    if not isinstance(m, SymInt) and not isinstance(y, SymInt):
        if m == 2 and y % 4 == 0 and (y % 100 != 0 or y % 400 == 0):
            return 29
        return _MDAYS[m - 1]
    me = m.expr if isinstance(m, SymInt) else z3.IntVal(m)
    ye = y.expr if isinstance(y, SymInt) else z3.IntVal(y)
    leap = z3.And(ye % 4 == 0, z3.Or(ye % 100 != 0, ye % 400 == 0))
    e = z3.If(
        me == 2,
        z3.If(leap, z3.IntVal(29), z3.IntVal(28)),
        z3.If(z3.Or(me == 4, me == 6, me == 9, me == 11), z3.IntVal(30), z3.IntVal(31)),
    )
    return SymInt(z3.simplify(e))


def _field(x):
    if isinstance(x, (SymInt, int)):
        return x
    if isinstance(x, SymNum):
        raise TypeError("integer argument expected, got float")
    return x.__index__()


def check_date(y, m, d):
    y, m, d = _field(y), _field(m), _field(d)
    if not (truth(y >= 1) and truth(y <= 9999)):
        raise ValueError("year is out of range")
    if not (truth(m >= 1) and truth(m <= 12)):
        raise ValueError("month must be in 1..12")
    if not (truth(d >= 1) and truth(d <= _days_in_month(y, m))):
        raise ValueError("day is out of range for month")
    return y, m, d


def _pad(x, n):
    return SO.int_to_str(x, n) if isinstance(x, SymInt) else str(x).zfill(n)


def _key(x):
    """fields of a date as one number"""
    return x.year * 10000 + x.month * 100 + x.day


def _tkey(x):
    return _key(x) * 1000000 + x.hour * 10000 + x.minute * 100 + x.second


class _Cmp:
    sx_symbolic = True

    def _op(self, o, name):
        dt = isinstance(self, datetime.datetime)
        if isinstance(o, datetime.datetime) != dt or not isinstance(o, datetime.date):
            if name in ("eq", "ne"):
                return name == "ne"
            raise TypeError("can't compare datetime.datetime to datetime.date")
        a, b = (_tkey(self), _tkey(o)) if dt else (_key(self), _key(o))
        return getattr(ops, name)(a, b)

    def __eq__(self, o):
        return self._op(o, "eq")

    def __ne__(self, o):
        return self._op(o, "ne")

    def __lt__(self, o):
        return self._op(o, "lt")

    def __le__(self, o):
        return self._op(o, "le")

    def __gt__(self, o):
        return self._op(o, "gt")

    def __ge__(self, o):
        return self._op(o, "ge")

    def __hash__(self):
        return hash(self.native())

    def __bool__(self):
        return True

    def __reduce__(self):
        raise Inconclusive("copy of a symbolic date")

    def __repr__(self):
        return repr(self.native())

    def __format__(self, spec):
        return str(self) if not spec else self.strftime(spec)

    def strftime(self, fmt):
        out, i = "", 0
        while i < len(fmt):
            c = fmt[i]
            if c == "%" and i + 1 < len(fmt):
                i += 1
                c = fmt[i]
                if c == "Y":
                    out += _pad(self.year, 4)
                elif c == "m":
                    out += _pad(self.month, 2)
                elif c == "d":
                    out += _pad(self.day, 2)
                elif c == "F":
                    out += _pad(self.year, 4) + "-" + _pad(self.month, 2) + "-" + _pad(self.day, 2)
                elif c == "%":
                    out += "%"
                else:
                    return self.native().strftime(fmt)
            else:
                out += c
            i += 1
        return out

    def __sub__(self, o):
        return self.native() - (o.native() if isinstance(o, _Cmp) else o)

    def __rsub__(self, o):
        return o - self.native()

    def __add__(self, o):
        return self.native() + o

    __radd__ = __add__

    def __getattribute__(self, n):
        if n in _NATIVE:
            return getattr(self.native(), n)
        return super().__getattribute__(n)


_NATIVE = {"weekday", "isoweekday", "toordinal", "timetuple", "isocalendar", "ctime", "timestamp", "utctimetuple", "astimezone"}


class SymDate(_Cmp, datetime.date):
    def __new__(cls, y, m, d):
        self = datetime.date.__new__(cls, 1, 1, 1)
        self.f = (y, m, d)
        return self

    year = property(lambda s: s.f[0])
    month = property(lambda s: s.f[1])
    day = property(lambda s: s.f[2])

    def isoformat(self):
        return _pad(self.year, 4) + "-" + _pad(self.month, 2) + "-" + _pad(self.day, 2)

    __str__ = isoformat
    __hash__ = _Cmp.__hash__

    def native(self):
        return datetime.date(*[ops.concretize(x) for x in self.f])

    def replace(self, year=None, month=None, day=None):
        g = [a if a is not None else b for a, b in zip((year, month, day), self.f)]
        return make_date(*g)


class SymDateTime(_Cmp, datetime.datetime):
    def __new__(cls, *f):
        self = datetime.datetime.__new__(cls, 1, 1, 1)
        self.f = f
        return self

    year = property(lambda s: s.f[0])
    month = property(lambda s: s.f[1])
    day = property(lambda s: s.f[2])
    hour = property(lambda s: s.f[3])
    minute = property(lambda s: s.f[4])
    second = property(lambda s: s.f[5])
    microsecond = property(lambda s: 0)
    tzinfo = property(lambda s: None)

    def isoformat(self, sep="T", timespec="auto"):
        return (
            _pad(self.year, 4) + "-" + _pad(self.month, 2) + "-" + _pad(self.day, 2) + sep
            + _pad(self.hour, 2) + ":" + _pad(self.minute, 2) + ":" + _pad(self.second, 2)
        )

    def __str__(self):
        return self.isoformat(" ")

    __hash__ = _Cmp.__hash__

    def native(self):
        return datetime.datetime(*[ops.concretize(x) for x in self.f])

    def date(self):
        return make_date(*self.f[:3])

    def replace(self, **k):
        names = ("year", "month", "day", "hour", "minute", "second")
        k = {n: v for n, v in k.items() if not (n in ("microsecond", "tzinfo", "fold") and not v)}
        if any(n not in names for n in k):
            return self.native().replace(**k)
        return make_datetime(*[k.get(n, v) for n, v in zip(names, self.f)])


def make_date(y, m, d):
    if not any(isinstance(x, SymInt) for x in (y, m, d)):
        return datetime.date(y, m, d)
    return SymDate(*check_date(y, m, d))


def make_datetime(y, m, d, h=0, mi=0, s=0, us=0, tz=None, **k):
    args = (y, m, d, h, mi, s)
    if not any(isinstance(x, SymInt) for x in args + (us,)):
        return datetime.datetime(*args, us, tz, **k)
    if us != 0 or tz is not None or k:
        return datetime.datetime(*[ops.concretize(x) for x in args + (us,)], tz, **k)
    y, m, d = check_date(y, m, d)
    if not (truth(h >= 0) and truth(h <= 23)):
        raise ValueError("hour must be in 0..23")
    if not (truth(mi >= 0) and truth(mi <= 59)):
        raise ValueError("minute must be in 0..59")
    if not (truth(s >= 0) and truth(s <= 59)):
        raise ValueError("second must be in 0..59")
    return SymDateTime(y, m, d, h, mi, s)


@ops.special(datetime.date)
def _date(f, *a, **k):
    names = ("year", "month", "day")
    a = list(a) + [k[n] for n in names[len(a):] if n in k]
    if len(a) == 3:
        return make_date(*a)
    return datetime.date(*a)


@ops.special(datetime.datetime)
def _datetime(f, *a, **k):
    names = ("year", "month", "day", "hour", "minute", "second", "microsecond", "tzinfo")
    a = list(a)
    for n in names[len(a):]:
        if n not in k:
            break
        a.append(k.pop(n))
    if len(a) >= 3 and any(isinstance(x, SymInt) for x in list(a) + list(k.values())):
        d = {n: v for n, v in k.items()}
        return make_datetime(*a, *[d.pop(n, 0) for n in names[len(a):6]], **d)
    return datetime.datetime(*a, **k)


@ops.special(datetime.date.fromisoformat)
def _fromiso(f, s):
    if not isinstance(s, str) or not has_tok(s):
        return datetime.date.fromisoformat(s)
    digits = None
    if len(s) == 10 and truth(ops.eq(s[4], "-")) and truth(ops.eq(s[7], "-")):
        digits = (s[:4], s[5:7], s[8:])
    elif len(s) == 8 and not truth(ops.eq(s[4], "W")):
        digits = (s[:4], s[4:6], s[6:])
    elif len(s) in (7, 8, 10) and truth(mkbool(SO.contains(s, "W"))):
        return datetime.date.fromisoformat(SO.concretize(s))
    if digits is None or not all(truth(SO.isdecimal(x)) and truth(SO.isascii(x)) for x in digits):
        raise ValueError("Invalid isoformat string: %r" % (s,))
    return make_date(*[SO.to_int(x) for x in digits])


@ops.special(datetime.datetime.fromisoformat)
def _dtfromiso(f, s):
    if not isinstance(s, str) or not has_tok(s):
        return datetime.datetime.fromisoformat(s)
    if len(s) in (8, 10):
        d = _fromiso(None, s)
        return make_datetime(d.year, d.month, d.day)
    return datetime.datetime.fromisoformat(SO.concretize(s))


@ops.special(datetime.datetime.combine)
def _combine(f, d, t, *a):
    if isinstance(d, SymDate) and not a and t.tzinfo is None and not t.microsecond:
        return make_datetime(d.year, d.month, d.day, t.hour, t.minute, t.second)
    return datetime.datetime.combine(d, t, *a)


@ops.special(datetime.datetime.strptime)
def _strptime(f, s, fmt):
    if not (isinstance(s, str) and has_tok(s)) and not has_tok(fmt):
        return datetime.datetime.strptime(s, fmt)
    import re

    parts = re.split(r"(%[a-zA-Z%])", fmt)
    if any(p[0] == "%" and p not in ("%Y", "%m", "%d") for p in parts if p) or len(set(parts[1::2])) != len(parts[1::2]):
        return datetime.datetime.strptime(SO.concretize(s), fmt)
    pat = "".join(
        {"%Y": r"(?P<Y>\d\d\d\d)", "%m": r"(?P<m>1[0-2]|0[1-9]|[1-9])", "%d": r"(?P<d>3[0-1]|[1-2]\d|0[1-9]|[1-9]| [1-9])"}[p] if p[:1] == "%" else re.escape(p)
        for p in parts
    )
    m = ops.call(re.compile(pat).match, s)
    if not m:
        raise ValueError("time data %r does not match format %r" % (s, fmt))
    if len(m.group(0)) != len(s):
        raise ValueError("unconverted data remains")
    g = m.groupdict()
    v = {k: SO.to_int(x.strip()) if has_tok(x) else int(x) for k, x in g.items()}
    y, mo, d = v.get("Y", 1900), v.get("m", 1), v.get("d", 1)
    return make_datetime(*check_date(y, mo, d))
