"""Symbolic side of the harness interface."""
import z3

from . import ops
from . import strops as SO
from .core import (
    AND,
    OR,
    CTX,
    TOKENS,
    E,
    Inconclusive,
    SymBool,
    SymInt,
    SymNum,
    Violation,
    _b,
    _wrap,
    char_expr,
    has_tok,
    mkbool,
    truth,
)


_DOMS = {}


class Sym:
    symbolic = True

    def __init__(self, eng, pins=None):
        self.e = eng
        self.pins = pins or {}

    def _declare(self, name, kind, payload):
        if name in self.e.vars:
            raise Inconclusive("variable %s declared twice" % name)
        self.e.vars[name] = (kind, payload)
        self.e.names.append(name)

    def _char(self, name, dom):
        if len(dom) == 1:
            return chr(next(iter(dom)))
        name = "%s~%d" % (name, _DOMS.setdefault(dom, len(_DOMS)))
        v = z3.Int(name)
        t = TOKENS.make(v, dom)
        if name not in self.e.declared:
            self.e.declared.add(name)
            rs = SO._ranges(dom)
            self.e.assume(
                OR(*[(v == lo if lo == hi else z3.And(v >= lo, v <= hi)) for lo, hi in rs])
            )
        return t

    def str(self, name, alphabet, lo, hi=None):
        hi = lo if hi is None else hi
        dom = frozenset(ord(c) for c in alphabet)
        n = lo
        if hi > lo:
            n = ops.concretize_int(self._int(name + "#len", lo, hi))
        # the domain is part of the variable identity: tokens are interned
        s = "".join(self._char("%s[%d]" % (name, i), dom) for i in range(n))
        self._declare(name, "str", s)
        return s

    def _int(self, name, lo, hi):
        v = z3.Int(name)
        self.e.assume(z3.And(v >= lo, v <= hi))
        return SymInt(v)

    def int(self, name, lo, hi):
        if lo == hi:
            self._declare(name, "const", lo)
            return lo
        r = self._int(name, lo, hi)
        self._declare(name, "int", r.expr)
        return r

    def bool(self, name):
        v = z3.Bool(name)
        self._declare(name, "bool", v)
        return SymBool(v)

    expr_bool = bool

    def pick(self, name, options):
        n = len(options)
        i, k = self.pins.get(name, (0, 1))
        idx = [j for j in range(n) if j % k == i]
        if not idx:
            self.e.assume(False)
        if len(idx) == 1:
            self._declare(name, "const", idx[0])
            return options[idx[0]]
        r = self._int(name, 0, n - 1)
        self._declare(name, "int", r.expr)
        if len(idx) < n:
            self.e.assume(z3.Or([r.expr == j for j in idx]))
        return options[ops.concretize_int(r)]

    def ratio(self, name, lo, hi, den=1):
        r = self._int(name, lo, hi)
        self._declare(name, "int", r.expr)
        return _wrap(z3.ToReal(r.expr) / z3.RealVal(den), "float")

    def assume(self, c):
        if isinstance(c, SymBool):
            c = c.expr
        elif not isinstance(c, bool):
            c = True if c else False
        self.e.assume(c)

    def check(self, c, label, detail=""):
        self.e.check(c, label)

    def check_eq(self, a, b, label):
        r = ops.eq(a, b)
        self.e.check(r if isinstance(r, (bool, SymBool)) else bool(r), label)

    def cover(self, label):
        self.e.covers[label] = self.e.covers.get(label, 0) + 1

    def observe(self, label, v):
        self.e.observed.append((label, v))

    def concrete(self, v):
        return ops.concretize(v)

    def hash_equal(self, a, b):
        return ops.hash_equal(a, b)

    def all_of(self, *cs):
        return mkbool(AND(*[c if isinstance(c, (SymBool, bool)) else bool(c) for c in cs]))

    def any_of(self, *cs):
        return mkbool(OR(*[c if isinstance(c, (SymBool, bool)) else bool(c) for c in cs]))

    def ite(self, c, a, b):
        return a if c else b


def eval_under(v, model):
    """norm(v) under a model"""
    if isinstance(v, str):
        if not has_tok(v):
            return v
        out = []
        for ch in v:
            e, d = char_expr(ch)
            out.append(ch if d is None else chr(model.eval(e, model_completion=True).as_long()))
        return "".join(out)
    if isinstance(v, SymBool):
        return z3.is_true(model.eval(v.expr, model_completion=True))
    if isinstance(v, SymInt):
        return model.eval(v.expr, model_completion=True).as_long()
    if isinstance(v, SymNum):
        r = model.eval(v.expr, model_completion=True)
        f = r.numerator_as_long() / r.denominator_as_long()
        return f if v.kind == "float" else str(f)
    if isinstance(v, (bool, type(None), int)):
        return v
    if isinstance(v, float):
        return v
    if isinstance(v, (list, tuple)):
        return [eval_under(x, model) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted((eval_under(x, model) for x in v), key=repr)
    if isinstance(v, dict):
        return sorted(([eval_under(k, model), eval_under(x, model)] for k, x in v.items()), key=repr)
    return eval_under(str(v), model)
