"""P11: the links of a role make one network."""
from harness.lib import *
from harness.p09 import ARCROLE, KIND, arc, extended, linkbase, locator, networks
from sx.api import Harness

PROPERTY = "P11"
ROLE = "http://ex.com/role/r"
ROLE2 = "http://ex.com/role/s"


def perm(xs, k):
    """the k-th permutation"""
    xs, out = list(xs), []
    while xs:
        n = len(xs)
        out.append(xs.pop(k % n))
        k //= n
    return out


def forest(S, nodes, kids, roots, see):
    """nodes are exactly the elements of roots, with the kids of the arcs below them"""
    S.check(len(nodes) == len(roots), "the elements no arc leads to are the roots")
    for r in roots:
        S.check(len([n for n in nodes if n.get_report_element().get_id() == r]) == 1, "an element is a root once")
    for n in nodes:
        below(S, n, kids, see)


def below(S, n, kids, see):
    want = kids.get(n.get_report_element().get_id(), [])
    ch = n.get_children()
    S.check(len(ch) == len(want), "an element has the children of all links")
    for i, c in enumerate(ch):
        hit = [w for w in want if w[0] == c.get_report_element().get_id()]
        S.check(len(hit) == 1, "an element has each child once")
        S.check_eq(c.get_order(), hit[0][1], "a child keeps its order")
        see(c, hit[0])
        if i > 0:
            S.check(ch[i - 1].get_order() <= c.get_order(), "children are ordered across links")
        below(S, c, kids, see)


def merge(S, p):
    """However arcs are dealt out to links and documents, the network is that of all arcs."""
    kind = S.pick("kind", p["kinds"])
    tag, arc_tag, cls = KIND[kind]
    n = p["n"]
    ids = ["e%d" % i for i in range(n)]
    # a forest: each element but the first has a parent before it, or none
    names = perm(ids, S.pick("names", p["names"]))
    parent, link_of = {}, {}
    kids, alone = {}, []
    links = [[] for _ in range(p["links"])]
    for i in range(1, n):
        k = S.pick("parent%d" % i, list(range(-1, i)))
        if k < 0:
            continue
        o = S.int("order%d" % i, 0, 9) if p["order"] else 1
        w = S.pick("weight%d" % i, ["1", "-1"]) if kind == "calculation" and p.get("weights") else "1"
        l = S.pick("link%d" % i, list(range(p["links"])))
        links[l].append((names[k], names[i], o, w))
        kids.setdefault(names[k], []).append((names[i], float(o), float(w)))
        parent[names[i]] = names[k]
    used = set(parent) | set(kids)
    S.assume(len(used) > 0)
    roots = [x for x in ids if x in used and x not in parent]
    els = []
    for es in links:
        if not es:
            continue
        c, seen = [], []
        for a, b, o, w in es:
            for x in (a, b):
                if x not in seen:
                    seen.append(x)
                    c.append(locator("L" + x, x))
            c.append(arc(arc_tag, "L" + a, "L" + b, ARCROLE[0], order=str(o), weight=w))
        els.append(extended(tag, ROLE, *c))
    els = perm(els, S.pick("perm", p["perm"]))
    if p.get("other") and S.pick("other", [0, 1]):
        els.insert(S.pick("at", [0, 1]), extended(tag, ROLE2, locator("x", names[1]), locator("y", names[0]), arc(arc_tag, "x", "y", ARCROLE[0], weight="1")))
        S.cover("other")
    two = S.pick("docs", [0, 1]) if p.get("docs") else 0
    docs = [("l.xml", linkbase(*els))]
    if two and len(els) > 1:
        docs = [("l.xml", linkbase(*els[1:])), ("m.xml", linkbase(els[0]))]
    # elements in two namespaces with the same local names
    one = [(i, "E%d" % (k // 2)) for k, i in enumerate(ids) if k % 2 == 0]
    two = [(i, "E%d" % (k // 2)) for k, i in enumerate(ids) if k % 2 == 1]
    ctx = new_context([("ex.xsd", schema(NS["ex"], *one)), ("ey.xsd", schema(NS["ey"], *two))] + docs + [("i.xml", instance())])
    XMLFilingParser(ctx).parse()
    S.check(codes(ctx) == [], "no error")
    got = networks(ctx, cls, ROLE)
    S.check(len(got) == 1, "the links of a role and kind make one network")

    def see(c, w):
        if kind == "calculation":
            S.check(c.get_weight() == w[2], "a child keeps its weight")

    forest(S, got[0].get_roots(), kids, roots, see)
    S.check(len(got[0].get_all_nodes()) == len(used), "each element has one node")
    if len(els) > 1:
        S.cover("several")
    S.cover(kind)


EDGES = [(0, 1), (0, 2), (1, 3), (3, 4), (4, 5), (5, 6), (2, 7), (0, 8), (0, 9)]


def many(S, p):
    """A tree of ten elements whose arcs are dealt out to six links in up to three documents."""
    kind = S.pick("kind", p["kinds"])
    tag, arc_tag, cls = KIND[kind]
    shift = S.pick("shift", p["shifts"])
    free = {(0, 8): S.int("order8", 0, 20), (0, 1): S.int("order1", 0, 20)}
    groups, kids = [[] for _ in range(6)], {}
    for i, (a, b) in enumerate(EDGES):
        o = free.get((a, b), 3 * i)
        w = "-1" if i % 3 == 1 and kind == "calculation" else "1"
        groups[(i * shift + i // 6) % 6].append(("e%d" % a, "e%d" % b, o, w))
        kids.setdefault("e%d" % a, []).append(("e%d" % b, float(o), float(w)))
    els = []
    for g in groups:
        if g:
            c = [locator("L" + x, x) for x in sorted({x for e in g for x in e[:2]})]
            els.append(extended(tag, ROLE, *(c + [arc(arc_tag, "L" + a, "L" + b, ARCROLE[0], order=str(o), weight=w) for a, b, o, w in g])))
    els = perm(els, S.pick("perm", p["perm"]))
    docs = [("%s.xml" % n, linkbase(*x)) for n, x in zip("lmn", (els[:3], els[3:5], els[5:])) if x]
    ids = ["e%d" % i for i in range(10)]
    ctx = new_context([("ex.xsd", schema(NS["ex"], *[(i, i.upper()) for i in ids]))] + docs + [("i.xml", instance())])
    XMLFilingParser(ctx).parse()
    S.check(codes(ctx) == [], "no error")
    got = networks(ctx, cls, ROLE)
    S.check(len(got) == 1, "the links of a role and kind make one network")

    def see(c, w):
        if kind == "calculation":
            S.check(c.get_weight() == w[2], "a child keeps its weight")

    forest(S, got[0].get_roots(), kids, ["e0"], see)
    S.check(len(got[0].get_all_nodes()) == 10, "each element has one node")
    S.cover(kind)


HARNESSES = [
    Harness(
        many,
        quick=[dict(kinds=sorted(KIND), shifts=[1, 5], perm=[0, 719, 250])],
        thorough=[dict(kinds=sorted(KIND), shifts=[1, 5], perm=list(range(0, 720, 23)), _split={"kind": 3})],
        covers=["presentation", "calculation", "definition"],
        bounds="a tree of ten elements and five levels, nine arcs in six links (2 ways, 3 (32) orders), three documents, two symbolic orders",
    ),
    Harness(
        merge,
        quick=[
            dict(kinds=sorted(KIND), n=3, names=[0], links=2, order=1, perm=[0, 1], docs=1, other=1, weights=1),
            dict(kinds=["presentation", "definition"], n=4, names=[0], links=3, order=0, perm=[0, 1, 2, 3, 4, 5], _split={"perm": 6, "kind": 2}),
        ],
        thorough=[
            dict(kinds=sorted(KIND), n=3, names=list(range(6)), links=2, order=1, perm=[0, 1], docs=1, other=1, weights=1, _split={"names": 6}),
            dict(kinds=sorted(KIND), n=4, names=[0, 7, 23], links=3, order=0, perm=[0, 1, 2, 3, 4, 5], _split={"perm": 6, "names": 3, "kind": 3}),
            dict(kinds=sorted(KIND), n=4, names=[0], links=2, order=1, perm=[0, 1], _split={"perm": 2, "parent3": 4, "kind": 3}),
        ],
        covers=["presentation", "calculation", "definition", "several", "other"],
        bounds="all forests over 3-4 elements, dealt out to 2-3 links in every order, in 1-2 documents, symbolic orders, beside a link of another role",
    )
]
ASSUMPTIONS = ["an element has at most one parent in the links of a role", "siblings with the same order may come in any order"]
