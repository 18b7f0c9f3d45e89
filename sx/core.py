"""Path exploration with z3 and the symbolic values it works on.

Strings are ordinary ``str`` objects.  A symbolic character is a code point in
planes 4..13 ("token"); TOKENS maps it to a z3 integer expression plus the
finite set of code points the expression can evaluate to.  All structure
preserving operations (concatenation, slicing, join, storing in an lxml tree)
therefore run natively; operations that look at the characters are intercepted
by ops.py.  Numbers and booleans are the proxy classes below.
"""
import re
import time

import z3

TOK_LO = 0x40000
TOK_HI = 0xDFFFF
TOKRE = re.compile("[\U00040000-\U000DFFFF]")
has_tok = TOKRE.search


class Inconclusive(BaseException):
    """The engine cannot decide something soundly.  Never a pass.

    Not an Exception, so that code under test cannot swallow it; creation is
    recorded so that even a bare ``except:`` cannot hide it.
    """

    def __init__(self, msg=""):
        super().__init__(msg)
        CTX.inconclusive = msg


class PathAbort(BaseException):
    """Steering: the current path is over (infeasible or assumption false)."""


class Violation(BaseException):
    """Steering: an assertion failed on this path; carries the model."""

    def __init__(self, label, values, detail=""):
        super().__init__(label)
        self.label = label
        self.values = values
        self.detail = detail


class _Tokens:
    """Process wide; meanings are path independent, so it is never reset."""

    def __init__(self):
        self.by_cp = {}
        self.by_id = {}
        self.next = TOK_LO

    def make(self, expr, dom):
        """expr: z3 Int; dom: frozenset of code points.  Returns a 1-char str."""
        if len(dom) == 1:
            return chr(next(iter(dom)))
        key = expr.get_id()
        cp = self.by_id.get(key)
        if cp is None:
            cp = self.next
            self.next += 1
            if (self.next & 0xFFFF) >= 0xFFFE:
                self.next = (self.next | 0xFFFF) + 1
            if cp > TOK_HI:
                raise Inconclusive("token space exhausted")
            self.by_id[key] = cp
            self.by_cp[cp] = (expr, dom)
        return chr(cp)


TOKENS = _Tokens()


def char_expr(ch):
    """(expr or int, domain or None) of a one character string."""
    cp = ord(ch)
    t = TOKENS.by_cp.get(cp)
    if t is None:
        return cp, None
    return t


# ---------------------------------------------------------------- exploration


class Engine:
    """Depth first exploration by re-execution."""

    def __init__(self, deadline=None, max_paths=1_000_000, max_depth=20000):
        self.solver = z3.Solver()
        self.solver.set("timeout", 60000)
        self.trail = []  # entries: [kind, expr, alt_available, alt_model]
        self.pos = 0
        self.model = None
        self.deadline = deadline
        self.max_paths = max_paths
        self.max_depth = max_depth
        self.stats = dict(
            paths=0, branches=0, queries=0, solver_s=0.0, checks=0, aborted=0, checks_trivial=0
        )
        self.vars = {}  # name -> descriptor, this path
        self.names = []  # order of creation, this path
        self.covers = {}
        self.observed = []
        self.declared = set()
        self.known = {}
        self.const_true = z3.BoolVal(True)

    # -- solver
    def _check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        self.stats["solver_s"] += time.time() - t
        self.stats["queries"] += 1
        if r == z3.unknown:
            raise Inconclusive("solver answered unknown: " + self.solver.reason_unknown())
        return r == z3.sat

    def _tick(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Inconclusive("time budget exhausted before all paths were explored")

    # -- events
    def assume(self, expr):
        """Add a constraint to the path (replayed without touching the solver)."""
        if expr is True:
            return
        if expr is False:
            raise PathAbort()
        if self.pos < len(self.trail):
            if self.trail[self.pos][0] != "assume":
                raise Inconclusive("non-deterministic re-execution (assume)")
            self.pos += 1
            return
        self.solver.push()
        self.solver.add(expr)
        self.trail.append(["assume", expr, False, None])
        self.pos += 1
        if self.model is not None and z3.is_true(self.model.eval(expr, model_completion=True)):
            return
        if not self._check():
            raise PathAbort()
        self.model = self.solver.model()

    def decide(self, expr):
        """Truth of a z3 boolean on this path; forks when both are feasible."""
        if expr is True or expr is False:
            return expr
        if z3.is_true(expr):
            return True
        if z3.is_false(expr):
            return False
        key = expr.get_id()
        r = self.known.get(key)
        if r is not None:
            return r[1]
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            if e[0] != "branch":
                raise Inconclusive("non-deterministic re-execution")
            self.pos += 1
            self.known[key] = (expr, e[4])
            return e[4]
        self._tick()
        if len(self.trail) > self.max_depth:
            raise Inconclusive("path too deep")
        self.stats["branches"] += 1
        if self.model is None:
            if not self._check():
                raise PathAbort()
            self.model = self.solver.model()
        mv = z3.is_true(self.model.eval(expr, model_completion=True))
        neg = z3.Not(expr)
        other = neg if mv else expr
        if self._check(other):
            alt, alt_model = True, self.solver.model()
        else:
            alt, alt_model = False, None
        self.solver.push()
        if alt:
            self.solver.add(expr if mv else neg)
        self.trail.append(["branch", expr, alt, alt_model, mv])
        self.pos += 1
        self.known[key] = (expr, mv)
        return mv

    def must(self, expr):
        """True iff expr holds for every value on this path (no fork)."""
        if expr is True or expr is False:
            return expr
        return not self._check(z3.Not(expr))

    def may(self, expr):
        if expr is True or expr is False:
            return expr
        return self._check(expr)

    def next_path(self):
        """Prepare the next path; False when exhausted."""
        while self.trail:
            e = self.trail[-1]
            if e[0] == "branch" and e[2]:
                self.solver.pop()
                self.solver.push()
                mv = not e[4]
                self.solver.add(e[1] if mv else z3.Not(e[1]))
                self.trail[-1] = ["branch", e[1], False, None, mv]
                self.model = e[3]
                return True
            self.trail.pop()
            self.solver.pop()
        return False

    def begin_path(self):
        self.pos = 0
        self.vars = {}
        self.names = []
        self.observed = []
        self.declared = set()
        self.known = {}
        self.memo = {}

    # -- models
    def values_from(self, model):
        out = {}
        for name, (kind, payload) in self.vars.items():
            out[name] = _value(kind, payload, model)
        return out

    def check(self, cond, label):
        """Assert cond for all values on this path."""
        self.stats["checks"] += 1
        if isinstance(cond, SymBool):
            cond = cond.expr
        if cond is True:
            self.stats["checks_trivial"] += 1
            return
        if self.model is None:
            if not self._check():
                raise PathAbort()
            self.model = self.solver.model()
        if cond is False:
            raise Violation(label, self.values_from(self.model))
        if not z3.is_bool(cond):
            cond = bool(cond)
            if cond:
                return
            raise Violation(label, self.values_from(self.model))
        if self._check(z3.Not(cond)):
            raise Violation(label, self.values_from(self.solver.model()))


def _value(kind, payload, model):
    if kind == "str":
        out = []
        for ch in payload:
            e, dom = char_expr(ch)
            if dom is None:
                out.append(ch)
            else:
                v = model.eval(e, model_completion=True).as_long()
                if v not in dom:
                    v = min(dom)
                out.append(chr(v))
        return "".join(out)
    if kind == "int":
        return model.eval(payload, model_completion=True).as_long()
    if kind == "bool":
        return z3.is_true(model.eval(payload, model_completion=True))
    if kind == "const":
        return payload
    raise Inconclusive("unknown variable kind " + kind)


class _Ctx:
    engine = None  # the active Engine, or None in native runs
    inconclusive = None


CTX = _Ctx()


def E():
    e = CTX.engine
    if e is None:
        raise Inconclusive("symbolic value used outside a symbolic run")
    return e


def truth(x):
    """bool of anything; forks for symbolic booleans."""
    if x is True or x is False:
        return x
    return bool(x)


# ------------------------------------------------------------------- values


def _b(x):
    """to z3 bool or python bool"""
    if isinstance(x, SymBool):
        return x.expr
    if isinstance(x, bool):
        return x
    if z3.is_bool(x):
        return x
    raise TypeError(x)


def mkbool(e):
    if e is True or e is False:
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def AND(*xs):
    out = []
    for x in xs:
        x = _b(x)
        if x is False:
            return False
        if x is True:
            continue
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def OR(*xs):
    out = []
    for x in xs:
        x = _b(x)
        if x is True:
            return True
        if x is False:
            continue
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def NOT(x):
    x = _b(x)
    if x is True:
        return False
    if x is False:
        return True
    return z3.Not(x)


class SymBool:
    __slots__ = ("expr",)

    def __init__(self, expr):
        self.expr = expr

    def __bool__(self):
        return E().decide(self.expr)

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            a, b = self.expr, _b(o)
            if b is True:
                return mkbool(a)
            if b is False:
                return mkbool(NOT(a))
            return mkbool(a == b)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return mkbool(NOT(r))

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(AND(self, o))
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(OR(self, o))
        return NotImplemented

    __ror__ = __or__

    def __invert__(self):
        raise Inconclusive("~ on a symbolic bool")

    def __str__(self):
        return str(bool(self))

    def __repr__(self):
        return repr(bool(self))

    def __format__(self, spec):
        return format(bool(self), spec)

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__


def _num(x):
    """z3 arithmetic expr of a python or symbolic number, plus kind"""
    if isinstance(x, SymInt):
        return x.expr, "int"
    if isinstance(x, SymNum):
        return x.expr, x.kind
    if isinstance(x, SymBool):
        return z3.If(x.expr, z3.IntVal(1), z3.IntVal(0)), "int"
    if isinstance(x, bool):
        return z3.IntVal(int(x)), "int"
    if isinstance(x, int):
        return z3.IntVal(x), "int"
    import decimal
    import fractions

    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            return None, "float"
        f = fractions.Fraction(x)
        return z3.RealVal(f"{f.numerator}/{f.denominator}"), "float"
    if isinstance(x, decimal.Decimal):
        if not x.is_finite():
            return None, "decimal"
        f = fractions.Fraction(x)
        return z3.RealVal(f"{f.numerator}/{f.denominator}"), "decimal"
    if isinstance(x, fractions.Fraction):
        return z3.RealVal(f"{x.numerator}/{x.denominator}"), "fraction"
    return None, None


def _wrap(e, kind):
    e = z3.simplify(e)
    if kind == "int":
        if z3.is_int_value(e):
            return e.as_long()
        return SymInt(e)
    if z3.is_rational_value(e):
        import decimal
        import fractions

        f = fractions.Fraction(e.numerator_as_long(), e.denominator_as_long())
        if kind == "float":
            return float(f)
        if kind == "decimal":
            return decimal.Decimal(f.numerator) / decimal.Decimal(f.denominator)
        return f
    return SymNum(e, kind)


_RANK = {"int": 0, "fraction": 1, "float": 2, "decimal": 2}


def _join(k1, k2):
    if k1 == k2:
        return k1
    if {k1, k2} == {"float", "decimal"}:
        raise TypeError("unsupported operand type(s): 'float' and 'decimal.Decimal'")
    return k1 if _RANK[k1] > _RANK[k2] else k2


class _Arith:
    __slots__ = ()

    def _bin(self, o, f, rev=False):
        b, kb = _num(o)
        if kb is None:
            return NotImplemented
        if b is None:
            raise Inconclusive("arithmetic with a non-finite number")
        a, ka = _num(self)
        k = _join(ka, kb)
        if k != "int":
            a = z3.ToReal(a) if a.is_int() else a
            b = z3.ToReal(b) if b.is_int() else b
        return _wrap(f(b, a) if rev else f(a, b), k)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple, bytes)):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, (str, list, tuple, bytes)):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b, True)

    def __truediv__(self, o):
        b, kb = _num(o)
        if kb is None:
            return NotImplemented
        if not isinstance(o, (SymInt, SymNum)) and o == 0:
            raise ZeroDivisionError("division by zero")
        if isinstance(o, (SymInt, SymNum)) and truth(o == 0):
            raise ZeroDivisionError("division by zero")
        a, ka = _num(self)
        k = _join(ka, kb)
        if k == "int":
            k = "float"
        a = z3.ToReal(a) if a.is_int() else a
        b = z3.ToReal(b) if b.is_int() else b
        return _wrap(a / b, k)

    def __rtruediv__(self, o):
        a, ka = _num(o)
        if ka is None:
            return NotImplemented
        if truth(self == 0):
            raise ZeroDivisionError("division by zero")
        b, kb = _num(self)
        k = _join(ka, kb)
        if k == "int":
            k = "float"
        a = z3.ToReal(a) if a.is_int() else a
        b = z3.ToReal(b) if b.is_int() else b
        return _wrap(a / b, k)

    def __neg__(self):
        e, k = _num(self)
        return _wrap(-e, k)

    def __pos__(self):
        return self

    def __abs__(self):
        e, k = _num(self)
        return _wrap(z3.If(e >= 0, e, -e), k)

    def _cmp(self, o, f):
        if isinstance(o, float) and (o != o or o in (float("inf"), float("-inf"))):
            return f(0.0, o) if o == o else f(0.0, o)
        b, kb = _num(o)
        if kb is None:
            return NotImplemented
        if b is None:
            raise Inconclusive("comparison with a non-finite number")
        a, ka = _num(self)
        if a.is_int() != b.is_int():
            a = z3.ToReal(a) if a.is_int() else a
            b = z3.ToReal(b) if b.is_int() else b
        return mkbool(z3.simplify(f(a, b)))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return truth(self != 0)


class SymInt(_Arith):
    # src: the ASCII digits this was read from, if it was
    __slots__ = ("expr", "src")

    def __init__(self, expr, src=None):
        self.expr = expr
        self.src = src

    def __floordiv__(self, o):
        if isinstance(o, int) and not isinstance(o, bool):
            if o == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
            if o > 0:
                return _wrap(self.expr / z3.IntVal(o), "int")
            return (-self) // (-o)
        if isinstance(o, SymInt):
            return self // concretize_int(o)
        return NotImplemented

    def __rfloordiv__(self, o):
        return o // concretize_int(self)

    def __mod__(self, o):
        if isinstance(o, int) and not isinstance(o, bool):
            if o == 0:
                raise ZeroDivisionError("integer modulo by zero")
            if o > 0:
                return _wrap(self.expr % z3.IntVal(o), "int")
            return -((-self) % (-o))
        if isinstance(o, SymInt):
            return self % concretize_int(o)
        return NotImplemented

    def __rmod__(self, o):
        if isinstance(o, (str, bytes)):
            return o % (str(self),)
        return o % concretize_int(self)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o, m=None):
        o = concretize_int(o) if isinstance(o, SymInt) else o
        if m is not None or not isinstance(o, int) or o < 0:
            return pow(concretize_int(self), o, m)
        r = 1
        for _ in range(o):
            r = r * self
        return r

    def __rpow__(self, o):
        return o ** concretize_int(self)

    def __index__(self):
        return concretize_int(self)

    def __int__(self):
        return concretize_int(self)

    def __float__(self):
        return float(concretize_int(self))

    def __round__(self, n=None):
        return self if (n is None or n >= 0) else round(concretize_int(self), n)

    def __hash__(self):
        return hash(concretize_int(self))

    def __str__(self):
        from . import strops

        return strops.int_to_str(self)

    __repr__ = __str__

    def __format__(self, spec):
        if spec in ("", "d", "n"):
            return str(self)
        m = re.fullmatch(r"0?(\d+)[dn]?", spec)
        if m and spec.startswith("0"):
            from . import strops

            return strops.int_to_str(self, zfill=int(m.group(1)))
        return format(concretize_int(self), spec)

    def bit_length(self):
        return concretize_int(self).bit_length()

    def is_integer(self):
        return True

    @property
    def real(self):
        return self


class SymNum(_Arith):
    """A real number standing for a python float / Decimal / Fraction.

    Sound for floats only where every operation is exact; harnesses choose
    their value ranges so that it is.
    """

    __slots__ = ("expr", "kind")

    def __init__(self, expr, kind):
        self.expr = expr
        self.kind = kind

    def __hash__(self):
        raise Inconclusive("hash of a symbolic " + self.kind)

    def __float__(self):
        raise Inconclusive("native use of a symbolic " + self.kind)

    def __int__(self):
        raise Inconclusive("native use of a symbolic " + self.kind)

    def trunc(self):
        fl = z3.ToInt(self.expr)
        neg = -z3.ToInt(-self.expr)
        return _wrap(z3.If(self.expr >= 0, fl, neg), "int")

    def is_integer(self):
        return mkbool(z3.IsInt(self.expr))

    def is_finite(self):
        return True

    def __round__(self, n=None):
        if n is None or n == 0:
            fl = z3.ToInt(self.expr)
            d = self.expr - z3.ToReal(fl)
            half = z3.RealVal("1/2")
            r = z3.If(d < half, fl, z3.If(d > half, fl + 1, z3.If(fl % 2 == 0, fl, fl + 1)))
            if n is None:
                return _wrap(r, "int")
            return _wrap(z3.ToReal(r), self.kind)
        raise Inconclusive("round(x, n)")

    def __str__(self):
        return "<symbolic %s>" % self.kind

    __repr__ = __str__


def concretize_int(x):
    """Case split over every feasible value (exhaustive, hence sound)."""
    if not isinstance(x, SymInt):
        return int(x)
    eng = E()
    for _ in range(5000):
        eng_model_value = _peek(eng, x.expr)
        if eng.decide(x.expr == eng_model_value):
            return eng_model_value
    raise Inconclusive("too many values while case-splitting an integer")


def _peek(eng, expr):
    """A candidate value that is deterministic under re-execution: it is an
    event of its own on the trail."""
    if eng.pos < len(eng.trail):
        e = eng.trail[eng.pos]
        if e[0] != "peek":
            raise Inconclusive("non-deterministic re-execution (case split)")
        eng.pos += 1
        return e[4]
    if eng.model is None:
        if not eng._check():
            raise PathAbort()
        eng.model = eng.solver.model()
    v = eng.model.eval(expr, model_completion=True).as_long()
    eng.solver.push()
    eng.trail.append(["peek", expr, False, None, v])
    eng.pos += 1
    return v
