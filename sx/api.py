"""What a harness sees: the same interface for symbolic and native runs."""
import json

MISSING = object()


class AssertFailed(BaseException):
    def __init__(self, label, detail=""):
        super().__init__(label)
        self.label = label
        self.detail = detail


class Skip(BaseException):
    """assumption false in a native run"""


def _expand(params, split):
    out = []
    for p in params:
        s = p.get("_split", split)
        combos = [{}]
        for n, k in s.items():
            combos = [dict(c, **{n: (i, k)}) for c in combos for i in range(k)]
        for c in combos:
            out.append(dict(p, _pin=c))
    return out


class Harness:
    def __init__(self, fn, name=None, quick=None, thorough=None, covers=(), bounds="", weight=1, split=None):
        """split: {pick name: k}; the options are dealt out to k tasks (the parameter _split overrides it)."""
        self.fn = fn
        self.name = name or fn.__name__
        self.quick = quick if quick is not None else [{}]
        self.thorough = thorough if thorough is not None else self.quick
        self.quick = _expand(self.quick, split or {})
        self.thorough = _expand(self.thorough, split or {})
        self.covers = tuple(covers)
        self.bounds = bounds
        self.weight = weight


class Native:
    """Concrete run of a harness on the uninstrumented code."""

    symbolic = False
    confirm = False  # the run is to confirm a violation

    def __init__(self, values):
        self.values = values
        self.observed = []
        self.covers = {}

    def _get(self, name):
        return self.values[name]

    def str(self, name, alphabet, lo, hi=None):
        return self._get(name)

    def int(self, name, lo, hi):
        return self._get(name)

    def bool(self, name):
        return self._get(name)

    def pick(self, name, options):
        return options[self._get(name)]

    def ratio(self, name, lo, hi, den=1):
        return self._get(name) / den

    def expr_bool(self, name):
        return self._get(name)

    def assume(self, c):
        if not c:
            raise Skip()

    def check(self, c, label, detail=""):
        if not c:
            raise AssertFailed(label, detail if isinstance(detail, str) else repr(detail))

    def check_eq(self, a, b, label):
        if not (a == b):
            raise AssertFailed(label, "got %r, expected %r" % (a, b))

    def cover(self, label):
        self.covers[label] = self.covers.get(label, 0) + 1

    def observe(self, label, v):
        self.observed.append([label, norm(v)])

    def concrete(self, v):
        return v

    def hash_equal(self, a, b):
        return hash(a) == hash(b)

    def all_of(self, *cs):
        return all(cs)

    def any_of(self, *cs):
        return any(cs)

    def ite(self, c, a, b):
        return a if c else b


def norm(v):
    if isinstance(v, (str, bool, type(None))):
        return v
    if isinstance(v, int):
        return v
    if isinstance(v, float):
        return float(v)
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted((norm(x) for x in v), key=repr)
    if isinstance(v, dict):
        return sorted(([norm(k), norm(x)] for k, x in v.items()), key=repr)
    return str(v)
