"""P09: networks mirror the arcs of their extended links."""
from harness.lib import *
from sx.api import Harness
from brel.networks import CalculationNetwork, DefinitionNetwork, DefinitionNetworkNode, LabelNetwork, PresentationNetwork, ReferenceNetwork
from brel.reportelements import Abstract
from brel.resource import BrelLabel

PROPERTY = "P09"

ROLE = "http://ex.com/role/r"
KIND = {
    "presentation": ("link:presentationLink", "link:presentationArc", PresentationNetwork),
    "calculation": ("link:calculationLink", "link:calculationArc", CalculationNetwork),
    "definition": ("link:definitionLink", "link:definitionArc", DefinitionNetwork),
}
ARCROLE = ["http://ex.com/arcrole/a", "http://ex.com/arcrole/b", "http://ex.com/arcrole/c"]


def locator(label, ident, doc="ex.xsd"):
    return el("link:loc", {"xlink:type": "locator", "xlink:href": doc + "#" + ident, "xlink:label": label})


def arc(tag, frm, to, role, **a):
    return el(tag, dict({"xlink:type": "arc", "xlink:from": frm, "xlink:to": to, "xlink:arcrole": role}, **a))


def extended(tag, role, *children):
    return el(tag, {"xlink:type": "extended", "xlink:role": role}, *children)


def linkbase(*links):
    return el("link:linkbase", None, *links, nsmap=nsmap("link", "xlink", "xml", "ex"))


def parse(ids, *links, extra=()):
    trees = [("ex.xsd", schema(NS["ex"], *[(i, i.upper()) for i in ids], extra=extra)), ("l.xml", linkbase(*links)), ("i.xml", instance())]
    ctx = new_context(trees)
    XMLFilingParser(ctx).parse()
    return ctx


def networks(ctx, cls, role=ROLE, physical=False):
    return [n for n in ctx.get_network_repository().get_by_type(cls) if n.is_physical() is physical and n.get_link_role() == role]


def expected(locs, arcs, role=None):
    """The forest that locators [(label, id)] and arcs [(from, to, arcrole, order, ...)] describe."""
    seen, use = [], []
    for a in arcs:
        k = a[:3]
        if k not in seen:
            seen.append(k)
            use.append(a)
    mine = [a for a in use if role is None or a[2] == role]

    def below(label, depth):
        if depth == 0:
            return []
        out = []
        # an arc leads to every locator of its label
        for a in mine:
            if a[0] == label:
                for l, i in locs:
                    if l == a[1]:
                        out.append((a, i, below(l, depth - 1)))
        # stable insertion by order
        res = []
        for c in out:
            k = len(res)
            while k > 0 and c[0][3] < res[k - 1][0][3]:
                k -= 1
            res.insert(k, c)
        return res

    roots = []
    for l, i in locs:
        into = [a for a in mine if a[1] == l]
        outof = [a for a in mine if a[0] == l]
        if into or (role is not None and not outof):
            continue
        roots.append((None, i, below(l, 4)))
    return roots, len(arcs) - len(use)


def compare(S, nodes, want, see, depth=5):
    S.check(len(nodes) == len(want), "a node has exactly one child for each arc that leaves it")
    for n, (a, ident, below) in zip(nodes, want):
        S.check(n.get_report_element().get_id() == ident, "a node points to the element of its locator, in the order of the arcs")
        if a is not None:
            S.check(n.get_arc_role() == a[2], "a node has the arc role of its arc")
            S.check_eq(n.get_order(), a[3], "a node has the order of its arc")
            see(n, a)
        if depth > 1:
            compare(S, n.get_children(), below, see, depth - 1)


def as_dict(S, got, node):
    """A node as a dictionary, with everything below it."""
    S.check([got["points_to"], got["arc_role"], got["link_role"]] == [node.points_to(), node.get_arc_role(), node.get_link_role()], "a node as a dictionary has its roles")
    S.check_eq(got["order"], node.get_order(), "a node as a dictionary has its order")
    kids = node.get_children()
    S.check(len(got["children"]) == len(kids), "a node as a dictionary has its children")
    for g, k in zip(got["children"], kids):
        as_dict(S, g, k)


def tree(S, p):
    """All graphs of a few arcs over a few locators, of every kind of link."""
    kind = S.pick("kind", p["kinds"])
    tag, arc_tag, cls = KIND[kind]
    ids = ["e%d" % i for i in range(p["locs"])]
    labels = ["L%d" % i for i in range(p["locs"])]
    if p.get("share") and S.pick("share", [0, 1]):
        labels[-1] = labels[-2]
    names = sorted(set(labels))
    locs = list(zip(labels, ids))
    arcs, els = [], []
    for i in range(p["arcs"]):
        f = S.pick("from%d" % i, names[: p.get("from", 9)])
        t = S.pick("to%d" % i, names)
        S.assume(f < t)  # acyclic
        r = S.pick("role%d" % i, ARCROLE[: p["roles"]])
        o, ot = 1.0, None
        if p["order"] and S.pick("ordered%d" % i, [1, 0]):
            d = S.int("order%d" % i, 0, 9)
            h = S.pick("half%d" % i, p["half"])
            o = d + (0.5 if h else 0)
            ot = ("-" if p["order"] == "neg" and S.pick("neg%d" % i, [0, 1]) else "") + str(d) + (".5" if h else "")
            if ot[0] == "-":
                o = -o
        at = {"order": ot}
        x = None
        if kind == "calculation":
            x = S.pick("weight%d" % i, p.get("weights", ["1", "-1.0"]))
            at["weight"] = x
            x = float(x)
        elif kind == "presentation":
            x = S.pick("pref%d" % i, p.get("prefs", [None]))
            at["preferredLabel"] = x
        arcs.append((f, t, r, o, x))
        els.append(arc(arc_tag, f, t, r, **at))
    link = [locator(l, i) for l, i in locs]
    if p.get("before") and S.pick("arcsfirst", [0, 1]):
        link = els + link
    else:
        link = link + els
    ctx = parse(ids, extended(tag, ROLE, *link))
    roots, dups = expected(locs, arcs)
    S.check(codes(ctx) == ["DUPLICATE_LINKBASE_ARC"] * dups, "exactly the duplicate arcs are reported")

    def see(n, a):
        if kind == "calculation":
            S.check(n.get_weight() == a[4], "a calculation node has the weight of its arc")
        elif kind == "presentation":
            S.check(n.get_preferred_label_role() == (a[4] or BrelLabel.STANDARD_LABEL_ROLE), "a presentation node has the preferred label of its arc")

    got = networks(ctx, cls)
    S.check(len(got) == 1, "an extended link gives one network")
    S.check(got[0].get_link_name().clark_notation() == q(tag), "a network has the name of its link")
    compare(S, got[0].get_roots(), roots, see)
    S.check(all(n.get_link_role() == ROLE for n in got[0].get_all_nodes()), "nodes have the role of their link")
    d = got[0].convert_to_dict()
    S.check([d["link_role"], d["is_physical"], d["link_name"], len(d["roots"])] == [ROLE, False, tag, len(got[0].get_roots())], "a network as a dictionary")
    for g, n in zip(d["roots"], got[0].get_roots()):
        as_dict(S, g, n)
    if kind == "definition":
        for r in ARCROLE[: p["roles"]]:
            want, _ = expected(locs, arcs, r)
            hit = [n for n in networks(ctx, cls, physical=True) if n.get_roots()[0].get_arc_role() == r]
            S.check(len(hit) == (1 if want else 0), "a definition link gives one physical network for each arc role")
            if hit:
                compare(S, hit[0].get_roots(), want, see)
                S.check(hit[0].get_arc_roles() == [r], "a physical network has one arc role")
                S.cover("physical")
    if dups:
        S.cover("duplicate")
    S.cover(kind)


def large(S, p):
    """Many children in any order, and a long chain."""
    kind = S.pick("kind", ["presentation", "calculation", "definition"])
    tag, arc_tag, cls = KIND[kind]
    n = p["n"]
    ids = ["e%d" % i for i in range(n + 1)]
    free = [S.int("order%d" % i, 0, 99) for i in range(3)]
    at = [1, n // 2, n]
    link = [locator(i, i) for i in ids]
    want = []
    for i in range(1, n + 1):
        o = free[at.index(i)] if i in at else 7 * i
        want.append((o, i))
        link.append(arc(arc_tag, "e0", ids[i], ARCROLE[0], order=str(o), **({"weight": "1"} if kind == "calculation" else {})))
    ids += ["c%d" % i for i in range(n)]
    for i in range(n):
        link.append(locator("c%d" % i, "c%d" % i))
        link.append(arc(arc_tag, "c%d" % (i - 1) if i else ids[n // 2], "c%d" % i, ARCROLE[0], **({"weight": "1"} if kind == "calculation" else {})))
    ctx = parse(ids, extended(tag, ROLE, *link))
    S.check(codes(ctx) == [], "no error")
    got = networks(ctx, cls)
    S.check(len(got) == 1 and len(got[0].get_roots()) == 1 and len(got[0].get_all_nodes()) == 2 * n + 1, "a large link gives one network with all nodes")
    kids = got[0].get_roots()[0].get_children()
    S.check(sorted(k.get_report_element().get_id() for k in kids) == sorted(ids[1 : n + 1]), "all children")
    for a, b in zip(kids, kids[1:]):
        S.check(a.get_order() <= b.get_order(), "children are in the order of their arcs")
    for k in kids:
        o = want[int(k.get_report_element().get_id()[1:]) - 1][0]
        S.check(k.get_order() == o, "each child has the order of its arc")
        if k.get_report_element().get_id() == ids[n // 2]:
            for i in range(n):
                S.check([x.get_report_element().get_id() for x in k.get_children()] == ["c%d" % i], "a long chain")
                k = k.get_children()[0]
            S.check(k.get_children() == [], "the end of a long chain")
    S.cover("large")


def loose(S, p):
    """Locators without an element, links without a role, and links of other kinds are reported; the rest is read."""
    n = S.str("id", p["alpha"], 1, p["n"])
    kind = S.pick("kind", sorted(KIND))
    tag, arc_tag, cls = KIND[kind]
    what = S.pick("what", ["missing", "norole", "other", "empty"])
    ids = ["ea", "eb"]
    link = lambda last: [locator("A", "ea"), locator("B", "eb"), locator("C", last), arc(arc_tag, "A", "B", ARCROLE[0], weight="1", order="2"), arc(arc_tag, "A", "C", ARCROLE[0], weight="1", order="1")]
    target, role = "e" + n, ROLE
    good = extended(tag, ROLE, *link(target))
    links, want = [good], []
    found = target == "ea" or target == "eb"
    if not found:
        want.append("XML_REFERENCED_LOCATOR_ELEMENT_NOT_FOUND")
    if what == "norole":
        links.insert(S.pick("at", [0, 1]), el(tag, {"xlink:type": "extended"}, *link("ea")))
        want.append("MISSING_LINK_ROLE")
    elif what == "other":
        links.insert(S.pick("at", [0, 1]), extended("link:someLink", ROLE, *link("ea")))
        want.append("UNSUPPORTED_LINK_TYPE")
    elif what == "empty":
        links.insert(S.pick("at", [0, 1]), extended(tag, ROLE))
    ctx = parse(ids, *links)
    S.check(sorted(codes(ctx)) == sorted(want), "each problem of a link is reported once")
    got = networks(ctx, cls)
    S.check(len(got) == 1, "the other links are read")
    want = [(("A", "B", ARCROLE[0], 2.0), "eb", [])]
    if found:
        want.insert(0, (("A", "C", ARCROLE[0], 1.0), target, []))
        S.cover("found")
    compare(S, got[0].get_roots(), [(None, "ea", want)], lambda n, a: None)
    S.cover(what)


def roles(S, p):
    """Links of different roles and kinds do not mix."""
    links, want = [], []
    for i in range(p["k"]):
        kind = S.pick("kind%d" % i, sorted(KIND))
        r = "http://ex.com/role/" + S.str("r%d" % i, p["alpha"], 1)
        for k2, r2, a, b in want:
            S.assume(k2 != kind or r2 != r)
        a, b = S.pick("edge%d" % i, [("ea", "eb"), ("eb", "ea"), ("eb", "ec")])
        tag, arc_tag, cls = KIND[kind]
        links.append(extended(tag, r, locator("x", a), locator("y", b), arc(arc_tag, "x", "y", ARCROLE[0], weight="1")))
        want.append((kind, r, a, b))
    ctx = parse(["ea", "eb", "ec"], *links)
    S.check(codes(ctx) == [], "no error")
    for kind, r, a, b in want:
        got = networks(ctx, KIND[kind][2], r)
        S.check(len(got) == 1, "one network for each role and kind")
        root = got[0].get_root()
        S.check(root.get_report_element().get_id() == a, "a network has the root of its link")
        ch = root.get_children()
        S.check(len(ch) == 1 and ch[0].get_report_element().get_id() == b and ch[0].get_children() == [], "a network has the arcs of its link only")
        ns = got[0].get_all_nodes()
        S.check([x.get_report_element().get_id() for x in ns] == [a, b], "the nodes of a network are listed once")
    S.check(len([n for n in ctx.get_network_repository().get_all() if not n.is_physical()]) == len(want), "no other networks")
    S.cover("reached")


def nodes(S, p):
    """The nodes below a node, and those of a network: all that can be reached, each once, also in cycles."""
    k = p["nodes"]
    kids = [[] for _ in range(k)]
    qn = QName("http://www.xbrl.org/2003/linkbase", "link", "definitionLink")
    made = [DefinitionNetworkNode(Abstract(QName(NS["ex"], "ex", "n%d" % i), "n%d" % i, []), kids[i], "arc", qn, ROLE, qn) for i in range(k)]
    below = [[] for _ in range(k)]
    for i in range(k):
        for j in range(k) if S.pick("order%d" % i, p["orders"]) else reversed(range(k)):
            if (p["cycles"] or i < j) and S.pick("arc%d-%d" % (i, j), [1, 0]):
                kids[i].append(made[j])
                below[i].append(j)
    def reach(i):
        seen, todo = [], [i]
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.append(x)
                todo += below[x]
        return seen
    for i in range(k):
        got = made[i].get_all_descendants()
        S.check(sorted(made.index(n) for n in got) == sorted(reach(i)), "the nodes below a node are all that can be reached from it, once")
        S.cover("again" if sum(len(below[x]) for x in reach(i)) >= len(reach(i)) else "tree")
    roots = [0] + ([1] if S.pick("roots", [1, 2]) == 2 else [])
    net = DefinitionNetwork([made[r] for r in roots], ROLE, qn, False)
    want = sorted(set(x for r in roots for x in reach(r)))
    S.check(sorted(made.index(n) for n in net.get_all_nodes()) == want, "the nodes of a network are all below its roots, once")


HARNESSES = [
    Harness(
        tree,
        quick=[
            dict(kinds=sorted(KIND), locs=3, arcs=2, roles=2, order=None, before=1),
            dict(kinds=["presentation", "definition"], locs=4, arcs=2, roles=1, order=None, share=1),
            dict(kinds=["presentation", "calculation"], locs=3, arcs=2, roles=1, order="pos", half=[0, 1], prefs=[None, "http://p"], _split={"from0": 2}),
            dict(kinds=["definition"], locs=3, arcs=2, roles=2, order="neg", half=[0], **{"from": 1}),
            dict(kinds=["definition"], locs=4, arcs=3, roles=3, order=None, **{"from": 1}),
            dict(kinds=["presentation", "definition"], locs=4, arcs=3, roles=1, order=None, _split={"from0": 3, "kind": 2}),
        ],
        thorough=[
            dict(kinds=sorted(KIND), locs=4, arcs=3, roles=2, order=None, weights=["1"], _split={"from0": 3, "to0": 4, "kind": 3}),
            dict(kinds=sorted(KIND), locs=4, arcs=3, roles=1, order="pos", half=[0], weights=["1"], _split={"from0": 3, "to0": 4, "kind": 3}),
            dict(kinds=sorted(KIND), locs=4, arcs=2, roles=2, order="neg", half=[0, 1], prefs=[None, "http://p"], share=1, before=1, _split={"from0": 3, "kind": 3}),
            dict(kinds=["presentation", "definition"], locs=5, arcs=4, roles=1, order=None, _split={"from0": 4, "to0": 5, "kind": 2}),
        ],
        covers=["presentation", "calculation", "definition", "physical", "duplicate"],
        bounds="acyclic graphs of 2-3 arcs over 3-4 locators (4 arcs over 5 in thorough), 2-3 arc roles, symbolic orders with halves and signs, shared locator labels, arcs before locators",
    ),
    Harness(large, quick=[dict(n=6)], thorough=[dict(n=20)], split={"kind": 3}, covers=["large"], bounds="%(n)d siblings with three free orders, a chain of %(n)d nodes"),
    Harness(loose, quick=[dict(alpha="abc", n=1)], thorough=[dict(alpha="abcAB", n=2)], covers=["missing", "norole", "other", "empty", "found"], bounds="a locator with a free target, beside a link without role, of another kind or without content"),
    Harness(nodes, quick=[dict(nodes=3, cycles=1, orders=[1]), dict(nodes=4, cycles=0, orders=[1, 0], _split={"arc0-1": 2})], thorough=[dict(nodes=3, cycles=1, orders=[1, 0], _split={"arc0-1": 2, "arc0-2": 2}), dict(nodes=5, cycles=0, orders=[1], _split={"arc0-1": 2, "arc0-2": 2})], covers=["again", "tree"], bounds="all graphs of 3 nodes, all acyclic ones of 4 (5) nodes"),
    Harness(roles, quick=[dict(k=2, alpha="abA")], thorough=[dict(k=3, alpha="abA", _split={"kind0": 3, "edge0": 3})], covers=["reached"], bounds="2-3 links over 3 roles, 3 kinds"),
]
ASSUMPTIONS = ["the prefix xlink is used for XLink", "ids are unique across the schemas of the filing", "each element has one locator in a link", "no prohibited arcs", "the arcs of a link form no directed cycle, except in nodes"]
