"""AST instrumentation of the modules under test, done at import time."""
import ast
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import sys
import types

from . import dates, ops, order  # noqa: F401  (dates registers its models)
from .core import Inconclusive

RUNTIME = {
    "__sx_call__": ops.call,
    "__sx_eq__": ops.eq,
    "__sx_ne__": ops.ne,
    "__sx_lt__": ops.lt,
    "__sx_gt__": ops.gt,
    "__sx_le__": ops.le,
    "__sx_ge__": ops.ge,
    "__sx_in__": lambda a, b: ops.contains(b, a),
    "__sx_nin__": lambda a, b: ops.not_contains(b, a),
    "__sx_chain__": ops.chain,
    "__sx_not__": ops.not_,
    "__sx_getitem__": ops.getitem,
    "__sx_key__": ops.key,
    "__sx_chkkey__": ops.chk_key,
    "__sx_mkdict__": ops.mkdict,
    "__sx_mkset__": ops.mkset,
    "__sx_binop__": ops.binop,
    "__sx_decorator__": ops.decorator,
    "__sx_iter__": order.iterate,
}

_CMPF = {
    ast.Eq: "__sx_eq__",
    ast.NotEq: "__sx_ne__",
    ast.Lt: "__sx_lt__",
    ast.Gt: "__sx_gt__",
    ast.LtE: "__sx_le__",
    ast.GtE: "__sx_ge__",
    ast.In: "__sx_in__",
    ast.NotIn: "__sx_nin__",
}
_NOCALL = {"super", "locals", "globals", "vars", "eval", "exec", "dir", "TypeVar", "cast", "namedtuple"}


def _name(n):
    return ast.Name(id=n, ctx=ast.Load())


def _mk(fn, *args):
    return ast.Call(func=_name(fn), args=list(args), keywords=[])


def _pure(n):
    if isinstance(n, (ast.Name, ast.Constant)):
        return True
    if isinstance(n, ast.Attribute):
        return _pure(n.value)
    if isinstance(n, ast.Subscript):
        return _pure(n.value) and _pure(n.slice)
    if isinstance(n, ast.Tuple):
        return all(_pure(x) for x in n.elts)
    return False


def _load(n):
    import copy

    n = copy.deepcopy(n)
    for x in ast.walk(n):
        if hasattr(x, "ctx"):
            x.ctx = ast.Load()
    return n


class Tr(ast.NodeTransformer):
    def __init__(self):
        self.functions = []
        self.stack = []

    # annotations stay untouched
    def visit_arg(self, n):
        return n

    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        n.target = self.visit(n.target)
        return n

    def _decorator(self, d):
        if not isinstance(d, (ast.Name, ast.Attribute)):
            return self.visit(d)
        if isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter") or isinstance(d, ast.Name) and d.id in ("property", "classmethod", "staticmethod", "abstractmethod", "overload"):
            return d
        return _mk("__sx_decorator__", d)

    def _fn(self, n):
        self.stack.append(n.name)
        self.functions.append((".".join(self.stack), n.lineno))
        n.decorator_list = [self._decorator(d) for d in n.decorator_list]
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.args.kw_defaults = [self.visit(d) if d is not None else None for d in n.args.kw_defaults]
        n.body = self._body(n.body)
        self.stack.pop()
        return n

    def _body(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    visit_FunctionDef = _fn
    visit_AsyncFunctionDef = _fn

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        n.body = self._body(n.body)
        self.stack.pop()
        return n

    def visit_TypeAlias(self, n):
        return n

    def visit_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id in _NOCALL:
            if n.func.id == "cast" and len(n.args) == 2:
                n.args[1] = self.visit(n.args[1])
                return n
            n.args = [self.visit(a) for a in n.args]
            for k in n.keywords:
                k.value = self.visit(k.value)
            return n
        self.generic_visit(n)
        return ast.copy_location(
            ast.Call(func=_name("__sx_call__"), args=[n.func] + n.args, keywords=n.keywords), n
        )

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1:
            f = _CMPF.get(type(n.ops[0]))
            if f is None:
                return n
            return ast.copy_location(_mk(f, n.left, n.comparators[0]), n)
        lam = []
        for c in n.comparators:
            lam.append(
                ast.Lambda(
                    args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                    body=c,
                )
            )
        names = ast.Tuple(
            elts=[ast.Constant(value=type(o).__name__) for o in n.ops], ctx=ast.Load()
        )
        return ast.copy_location(_mk("__sx_chain__", n.left, names, *lam), n)

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not):
            return ast.copy_location(_mk("__sx_not__", n.operand), n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        nm = type(n.op).__name__
        if nm in ("Sub", "BitOr", "BitAnd", "BitXor"):
            return ast.copy_location(_mk("__sx_binop__", ast.Constant(value=nm), n.left, n.right), n)
        return n

    def visit_Subscript(self, n):
        if isinstance(n.ctx, ast.Load):
            self.generic_visit(n)
            if isinstance(n.slice, ast.Slice):
                return n
            return ast.copy_location(_mk("__sx_getitem__", n.value, n.slice), n)
        # store / delete
        pure = _pure(n.value)
        base = _load(n.value) if pure else None
        n.value = self.visit(n.value)
        n.slice = self.visit(n.slice)
        if isinstance(n.slice, ast.Slice):
            return n
        if pure:
            base = self.visit(base)
            n.slice = _mk("__sx_key__", base, n.slice)
        else:
            n.slice = _mk("__sx_chkkey__", n.slice)
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        n.iter = _mk("__sx_iter__", n.iter)
        return n

    def visit_comprehension(self, n):
        self.generic_visit(n)
        n.iter = _mk("__sx_iter__", n.iter)
        return n

    def visit_Starred(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            n.value = _mk("__sx_iter__", n.value)
        return n

    def visit_Assign(self, n):
        self.generic_visit(n)
        if any(isinstance(t, (ast.Tuple, ast.List)) for t in n.targets) and not isinstance(n.value, ast.Tuple):
            n.value = _mk("__sx_iter__", n.value)
        return n

    def visit_AugAssign(self, n):
        n.value = self.visit(n.value)
        n.target = self.visit(n.target)
        nm = type(n.op).__name__
        if nm in ("Sub", "BitOr", "BitAnd", "BitXor") and isinstance(n.target, (ast.Name, ast.Attribute)) and _pure(n.target):
            return ast.copy_location(
                ast.Assign(targets=[n.target], value=_mk("__sx_binop__", ast.Constant(value=nm), _load(n.target), n.value)),
                n,
            )
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        if not n.keys or all(isinstance(k, ast.Constant) for k in n.keys):
            return n
        elts = []
        for k, v in zip(n.keys, n.values):
            elts.append(
                ast.Tuple(elts=[v] if k is None else [k, v], ctx=ast.Load())
            )
        return ast.copy_location(_mk("__sx_mkdict__", ast.Tuple(elts=elts, ctx=ast.Load())), n)

    def visit_Set(self, n):
        self.generic_visit(n)
        if all(isinstance(k, ast.Constant) for k in n.elts):
            return n
        return ast.copy_location(_mk("__sx_mkset__", ast.Tuple(elts=n.elts, ctx=ast.Load())), n)

    def visit_DictComp(self, n):
        self.generic_visit(n)
        g = ast.GeneratorExp(
            elt=ast.Tuple(elts=[n.key, n.value], ctx=ast.Load()), generators=n.generators
        )
        return ast.copy_location(_mk("__sx_mkdict__", g), n)

    def visit_SetComp(self, n):
        self.generic_visit(n)
        g = ast.GeneratorExp(elt=n.elt, generators=n.generators)
        return ast.copy_location(_mk("__sx_mkset__", g), n)

    def visit_Match(self, n):
        simple = all(_simple_pat(c.pattern) for c in n.cases)
        if not simple:
            n.subject = self.visit(_mk_chk(n.subject))
            for c in n.cases:
                c.body = self._body(c.body)
                if c.guard is not None:
                    c.guard = self.visit(c.guard)
            return n
        tmp = "_sx_subj_%d" % n.lineno
        stmts = [
            ast.copy_location(
                ast.Assign(targets=[ast.Name(id=tmp, ctx=ast.Store())], value=self.visit(n.subject)), n
            )
        ]
        head = None
        tail = None
        for c in n.cases:
            test, binds = _pat_test(c.pattern, tmp)
            body = [self.visit(b) for b in binds] + self._body(c.body)
            if c.guard is not None:
                g = self.visit(c.guard)
                if binds:
                    raise Inconclusive("match guard with capture")
                test = ast.BoolOp(op=ast.And(), values=[test, g])
            node = ast.If(test=test, body=body, orelse=[])
            ast.copy_location(node, n)
            if head is None:
                head = tail = node
            else:
                tail.orelse = [node]
                tail = node
        stmts.append(head)
        return stmts


def _mk_chk(n):
    return _mk("__sx_chkkey__", n)


def _simple_pat(p):
    if isinstance(p, (ast.MatchValue, ast.MatchSingleton)):
        return True
    if isinstance(p, ast.MatchOr):
        return all(_simple_pat(q) for q in p.patterns)
    if isinstance(p, ast.MatchAs):
        return p.pattern is None or _simple_pat(p.pattern)
    return False


def _pat_test(p, tmp):
    if isinstance(p, ast.MatchValue):
        return _mk("__sx_eq__", _name(tmp), p.value), []
    if isinstance(p, ast.MatchSingleton):
        return ast.Compare(left=_name(tmp), ops=[ast.Is()], comparators=[ast.Constant(value=p.value)]), []
    if isinstance(p, ast.MatchOr):
        return ast.BoolOp(op=ast.Or(), values=[_pat_test(q, tmp)[0] for q in p.patterns]), []
    binds = []
    if p.name is not None:
        binds.append(ast.Assign(targets=[ast.Name(id=p.name, ctx=ast.Store())], value=_name(tmp), lineno=0))
    t = ast.Constant(value=True) if p.pattern is None else _pat_test(p.pattern, tmp)[0]
    return t, binds


FUNCTIONS = {}  # module -> [(qualname, lineno)]


def compile_instr(src, filename, modname):
    tree = ast.parse(src, filename)
    tr = Tr()
    # keep "from __future__" and docstring first: nothing is inserted at top
    tree = tr.visit(tree)
    ast.fix_missing_locations(tree)
    FUNCTIONS[modname] = tr.functions
    return compile(tree, filename, "exec", dont_inherit=True)


class Loader(importlib.machinery.SourceFileLoader):
    def exec_module(self, module):
        path = self.get_filename(self.name)
        with open(path, "rb") as f:
            src = f.read()
        code = compile_instr(src, path, self.name)
        module.__dict__.update(RUNTIME)
        exec(code, module.__dict__)
        for c in list(module.__dict__.values()):
            if isinstance(c, type) and c.__module__ == self.name:
                _dataclass(c)


def _dataclass(c):
    """Replace the methods dataclass generated (their code is not instrumented)."""
    import dataclasses

    p = c.__dict__.get("__dataclass_params__")
    if p is None:
        return

    def generated(n):
        f = c.__dict__.get(n)
        return f is not None and getattr(getattr(f, "__code__", None), "co_filename", "") == "<string>"

    names = [f.name for f in dataclasses.fields(c) if f.compare]
    hnames = [f.name for f in dataclasses.fields(c) if (f.compare if f.hash is None else f.hash)]
    if generated("__eq__"):

        def __eq__(self, other):
            if other.__class__ is self.__class__:
                return ops.eq(tuple(getattr(self, n) for n in names), tuple(getattr(other, n) for n in names))
            return NotImplemented

        c.__eq__ = __eq__
    if generated("__hash__"):

        def __hash__(self):
            return ops._hash(hash, tuple(getattr(self, n) for n in hnames))

        c.__hash__ = __hash__


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, prefixes):
        self.prefixes = tuple(prefixes)

    def find_spec(self, name, path, target=None):
        if not any(name == p or name.startswith(p + ".") for p in self.prefixes):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path)
        if spec is None or not spec.origin or not spec.origin.endswith(".py"):
            return spec
        spec.loader = Loader(name, spec.origin)
        spec.cached = None
        return spec


def install(prefixes):
    sys.meta_path.insert(0, Finder(prefixes))


_TW = {}


def twin_module(name):
    """An instrumented private copy of a pure python library module."""
    m = _TW.get(name)
    if m is None:
        spec = importlib.util.find_spec(name)
        origin = spec.origin
        if not origin.endswith(".py"):
            origin = importlib.import_module(name).__file__
        with open(origin, "rb") as f:
            src = f.read()
        if name == "posixpath":
            # use the Python version of what is written in C
            src = src.replace(b"from posix import _path_normpath", b"raise ImportError")
        m = types.ModuleType("sxtwin." + name)
        m.__file__ = origin
        m.__package__ = name.rpartition(".")[0]
        m.__dict__.update(RUNTIME)
        sys.modules["sxtwin." + name] = m
        exec(compile_instr(src, origin, "sxtwin." + name), m.__dict__)
        _TW[name] = m
    return m
