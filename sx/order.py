"""The order of sets as a schedule: what hashing decides on a real run becomes symbolic ranks.

While active, every iteration of instrumented code over a set follows ranks, distinct symbolic
integers of its elements, so that all orders (of up to LIMIT elements) are explored; larger sets
are seen in one order and its reverse.  One rank per element and path: sets that share elements
agree on their order.
"""
import enum
import functools

from .core import truth

ACTIVE = [None]
LIMIT = 4


class Order:
    def __init__(self, S):
        self.S = S
        self.ranks = {}
        self.back = None
        self.seen = 0

    def __enter__(self):
        ACTIVE[0] = self
        return self

    def __exit__(self, *_):
        ACTIVE[0] = None

    def rank(self, x):
        r = self.ranks.get(x)
        if r is None:
            ACTIVE[0] = None
            try:
                n = len(self.ranks)
                r = self.S.int("rank%d" % n, 0, 999)
                for o in self.ranks.values():
                    self.S.assume(r != o)
                self.ranks[x] = r
            finally:
                ACTIVE[0] = self
        return r

    def of(self, s):
        xs = list(s)
        if len(xs) < 2 or not all(_named(x) for x in xs):
            return xs
        self.seen += 1
        xs.sort(key=_text)
        if len(xs) > LIMIT:
            if self.back is None:
                ACTIVE[0] = None
                try:
                    self.back = truth(self.S.bool("backwards"))
                finally:
                    ACTIVE[0] = self
            return xs[::-1] if self.back else xs
        rs = {x: self.rank(x) for x in xs}
        return sorted(xs, key=functools.cmp_to_key(lambda a, b: -1 if truth(rs[a] < rs[b]) else 1))


def _text(x):
    return (type(x).__name__, x.name if isinstance(x, enum.Enum) else str(x))


def _named(x):
    if isinstance(x, (str, int, enum.Enum)):
        return True
    if type(x) in (tuple, frozenset):
        return all(_named(y) for y in x)
    return type(x).__module__.startswith("brel") and type(x).__str__ is not object.__str__ and type(x).__hash__ is not object.__hash__


def iterate(x):
    if ACTIVE[0] is not None and type(x) in (set, frozenset):
        return ACTIVE[0].of(x)
    return x
