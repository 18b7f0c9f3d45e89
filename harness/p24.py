"""P24: pretty printing."""
import sys

from harness.lib import *
from sx.api import Harness
from brel import Fact, Component
from brel.characteristics import Aspect
from brel.networks import *
from brel.reportelements import *
from brel.resource import BrelFootnote, BrelLabel, BrelReference
import brel.utils

PROPERTY = "P24"
pprint_module, print_component, print_facts, print_networks = [sys.modules["brel.utils." + m] for m in ("pprint", "print_component", "print_facts", "print_networks")]
REAL_TABLE = print_facts.__dict__.get("PrettyTable")
REAL_RICH = print_component.__dict__.get("rich")


class Table:
    """Stand-in for prettytable.PrettyTable: columns and rows."""

    def __init__(self, field_names=None, **k):
        self.field_names, self.rows = list(field_names or []), []

    def add_row(self, row, **k):
        self.rows.append(list(row))

    def add_rows(self, rows):
        for r in rows:
            self.add_row(r)


class Screen:
    """Stand-in for the console: what is printed, line by line."""

    def __init__(self):
        self.lines, self.tables = [], []

    def print(self, *a, **k):
        if len(a) == 1 and isinstance(a[0], Table):
            self.tables.append(a[0])
        else:
            self.lines.append(" ".join(str(x) for x in a))


def shown(fn, *a):
    """What fn(*a) prints."""
    screen = Screen()
    for m in (pprint_module, print_component, print_facts, print_networks):
        m.__dict__["print"] = screen.print
    if REAL_TABLE is not None:
        print_facts.__dict__["PrettyTable"] = Table
    if REAL_RICH is not None:
        print_component.__dict__["rich"] = screen
    try:
        fn(*a)
    finally:
        for m in (pprint_module, print_component, print_facts, print_networks):
            m.__dict__.pop("print", None)
        if REAL_TABLE is not None:
            print_facts.__dict__["PrettyTable"] = REAL_TABLE
        if REAL_RICH is not None:
            print_component.__dict__["rich"] = REAL_RICH
    return screen


EX = [
    ("ex_a", "a"),
    ("ex_b", "b"),
    ("ex_d", "d", {"substitutionGroup": "xbrldt:dimensionItem", "abstract": "true"}),
    ("ex_e", "e", {"substitutionGroup": "xbrldt:dimensionItem", "abstract": "true"}),
    ("ex_m", "m", {"type": "nonnum:domainItemType", "abstract": "true"}),
]


def explicit(d, m):
    return el("xbrldi:explicitMember", {"dimension": d}, text=m)


def filing(S, p):
    """A filing with facts; ids and values are free."""
    contexts, facts, ids = [], [], []
    for i in range(p["facts"]):
        seg = S.pick("segment%d" % i, p["segments"]) if "plan" not in p else p["plan"][i]
        contexts.append(context_el("c%d" % i, instant("2020-12-0%d" % (1 if p.get("instants") else i + 1)) if S.pick("period%d" % i, p["periods"]) else duration("2019-01-01", "2019-12-31"), ident="e%d" % (S.pick("entity%d" % i, p["entities"]) if p.get("entities") and i else i), segment=[explicit("ex:" + x, "ex:m") for x in seg]))
        name = "ex:" + (S.pick("concept%d" % i, ["a", "b"]) if "plan" not in p else "ab"[i % 2])
        unit = "u" if S.pick("unit%d" % i, p["units"]) else None
        ident = (S.str("id%d" % i, p["ids"], 1) if "plan" not in p else "fact-%d" % i) if S.pick("has id%d" % i, p["has"]) else None
        S.assume(ident is None or all(ident != x for x in ids))
        ids += [ident] if ident is not None else []
        facts.append(el(name, {"id": ident, "contextRef": "c%d" % i, "unitRef": unit, "decimals": "0" if unit else None}, text=S.str("value%d" % i, "123", 1) if p["values"] else str(i + 1)))
    f = open_xml([("i.xml", instance(*contexts, unit_el("u"), *facts)), ("e.xsd", schema(NS["ex"], *EX))])
    S.check(codes(f) == [] and len(f.get_all_facts()) == p["facts"], "the filing is good")
    return f.get_all_facts()


def aspects(facts):
    out = []
    for f in facts:
        for a in f.get_context().get_aspects():
            if a not in out:
                out.append(a)
    return out


def same_row(S, f, r, at, cols):
    """Is r the row of f?"""
    for a in cols:
        c = f.get_context().get_characteristic(a)
        if c is None and r[at[a.get_name()]] not in (None, "") or c is not None and str(r[at[a.get_name()]]) != str(c):
            return False
    if f.get_id() is None and r[at["id"]] not in (None, "") or f.get_id() is not None and r[at["id"]] != f.get_id():
        return False
    return str(r[at["value"]]) == f.get_value_as_str()


def table(S, p):
    """The table of facts has one row for every fact, with what the fact has in each column."""
    facts = filing(S, p)
    t = shown(pprint_module.pprint, facts).tables
    S.check(len(t) == 1, "facts are shown as one table")
    t = t[0]
    names = [a.get_name() for a in aspects(facts)]
    S.check(sorted(t.field_names) == sorted(["id", "value"] + names), "the table has a column for the id, the value and every aspect of the facts, and no others")
    S.check(all(len(r) == len(t.field_names) for r in t.rows) and len(t.rows) == len(facts), "the table has one row for every fact")
    left = list(facts)
    at = {n: i for i, n in enumerate(t.field_names)}
    cols = aspects(facts)
    for r in t.rows:
        f = None
        for x in left:
            if same_row(S, x, r, at, cols):
                f = x
                break
        S.check(f is not None, "each row has the id, the value and the aspects of a fact that has no other row")
        left = [x for x in left if x is not f]
        if any(f.get_context().get_characteristic(a) is None for a in cols):
            S.cover("gap")
    S.cover("table")


def single(S, p):
    """The table of one fact has a row for the value and for every aspect."""
    facts = filing(S, p)
    for f in facts:
        t = shown(pprint_module.pprint, f).tables
        S.check(len(t) == 1, "a fact is shown as one table")
        want = [(a.get_name(), str(f.get_context().get_characteristic(a))) for a in f.get_context().get_aspects()] + [("value", f.get_value_as_str())]
        rows = [(r[0], str(r[1])) for r in t[0].rows]
        S.check(len(rows) == len(want), "every aspect and the value is shown once")
        for n, v in want:
            S.check(any(S.all_of(rn == n, rv == v) for rn, rv in rows), "every aspect and the value is shown with what the fact has")
        S.cover("single")


def qn(name):
    return QName("http://example.com/ex", "ex", name)


MAKERS = {
    "CONCEPT": lambda n: Concept(qn(n), n, [], "instant", None, True, "xbrli:monetaryItemType"),
    "ABSTRACT": lambda n: Abstract(qn(n), n, []),
    "DIMENSION": lambda n: Dimension(qn(n), n, []),
    "MEMBER": lambda n: Member(qn(n), n, []),
    "HYPERCUBE": lambda n: Hypercube(qn(n), n, []),
    "LINE ITEMS": lambda n: LineItems(qn(n), n, []),
}
KINDS = list(MAKERS)
ROLE = "http://r.example/role"
LINK, ARC = QName("http://www.xbrl.org/2003/linkbase", "link", "presentationLink"), QName("http://www.xbrl.org/2003/linkbase", "link", "presentationArc")


def forest(S, p, tag=""):
    """A forest of nodes: each node hangs below an earlier one or is a root; kinds, names and weights are free."""
    parents, nodes, roots = [], [], []
    for i in range(p["nodes"]):
        t = "%s%d" % (tag, i)
        parents.append(p["parents"][i] if "parents" in p else S.pick("parent" + t, [-1] + list(range(i))) if i else -1)
        kids = []
        name = ("n" if i >= p.get("free", i + 1) else S.str("name" + t, p["alpha"], 1)) + "%d" % i
        if p["net"] == "calculation":
            w = S.pick("weight" + t, p["weights"])
            n = CalculationNetworkNode(MAKERS["CONCEPT"](name), kids, "arc", ARC, ROLE, LINK, weight=w, order=i)
            want = ("CONCEPT", ["ex:" + name], w)
        elif p["net"] == "footnote":
            kind = S.pick("kind" + t, ["fact", "footnote", "concept"])
            if kind == "fact":
                x, want = p["fact"](name), ("", [name], None)
            elif kind == "footnote":
                x, want = BrelFootnote(name, "l", "en", ROLE + "/the-role"), ("FOOTNOTE", [name, "the-role"], None)
            else:
                x, want = MAKERS["CONCEPT"](name), ("CONCEPT", ["ex:" + name], None)
            n = FootnoteNetworkNode(x, kids, "arc", ARC, ROLE, LINK, order=i)
        else:
            kind = S.pick("kind" + t, p["kinds"])
            if p["net"] == "presentation":
                n = PresentationNetworkNode(MAKERS[kind](name), kids, "arc", ARC, ROLE, LINK, None, order=i)
            else:
                n = DefinitionNetworkNode(MAKERS[kind](name), kids, "arc", ARC, ROLE, LINK, order=i)
            want = (kind, ["ex:" + name], None)
        nodes.append((n, kids, want))
        if parents[i] < 0:
            roots.append(i)
        else:
            nodes[parents[i]][1].append(n)
    return parents, nodes, roots


def lines_of(parents, nodes, i, depth):
    """The lines that show node i and what is below it."""
    out = [(depth, nodes[i][2])]
    for j in range(i + 1, len(nodes)):
        if parents[j] == i:
            out += lines_of(parents, nodes, j, depth + 1)
    return out


def weight_in(line, w):
    return any("W=" in x and float(x.split("=", 1)[1]) == w for x in line.replace("]", "[").split("["))


def same_lines(S, lines, want, what):
    S.check(len(lines) == len(want), what + ": every node is shown in one line, and nothing else")
    indents = {}
    for line, (depth, (kind, texts, weight)) in zip(lines, want):
        S.check(kind in line, what + ": the line of a node names the kind of what it points to")
        for t in texts:
            S.check(t in line, what + ": the line of a node, in the order of the tree, names what it points to")
        if weight is not None:
            S.check(weight_in(line, weight), what + ": the line of a node has its weight")
        i = 0
        while line[i] in "└─│├ ":
            i += 1
        S.check(indents.setdefault(depth, i) == i, what + ": nodes of the same depth have the same indentation")
    S.check([indents[d] for d in sorted(indents)] == sorted(set(indents.values())), what + ": deeper nodes are indented deeper")


NETS = dict(presentation=PresentationNetwork, definition=DefinitionNetwork, calculation=CalculationNetwork, footnote=FootnoteNetwork)


def network(S, p):
    """The lines of a network are its tree: each node once, below its parent, in order."""
    if p["net"] == "footnote":
        facts = filing(S, dict(facts=1, segments=[""], periods=[1], units=[1], ids="f", has=[1], values=0))
        c = facts[0].get_context()
        p = dict(p, fact=lambda v: Fact(c, v, "f"))
    parents, nodes, roots = forest(S, p)
    net = NETS[p["net"]]([nodes[i][0] for i in roots], ROLE, LINK, False)
    want = []
    for i in roots:
        want += lines_of(parents, nodes, i, 0)
    lines = shown(pprint_module.pprint, net).lines
    S.check(any(ROLE in x for x in lines[:2]) and any("arc" in x for x in lines[:2]), "the network is shown with its role and its kind of arcs")
    same_lines(S, [x for x in lines[2:] if x != ""], want, "a network")
    S.cover("network")
    n = S.pick("node", list(range(p["nodes"])))
    same_lines(S, [x for x in shown(pprint_module.pprint, nodes[n][0]).lines if x != ""], lines_of(parents, nodes, n, 0), "a node")


def resources(S, p):
    """Labels and references are shown with role, language and text."""
    name, text, lang = S.str("name", p["alpha"], 1), S.str("text", p["alpha"], 1, 2), S.str("language", p["alpha"], 2)
    role = S.str("role", p["alpha"], 1)
    c = MAKERS["CONCEPT"](name)
    if S.pick("kind", [0, 1]):
        leaf = LabelNetworkNode(BrelLabel(text, "l", lang, "http://r/" + role), "arc", ARC, ROLE, LINK)
        want = ["LABEL", text, lang, role]
        S.cover("label")
        root = LabelNetworkNode(c, "arc", ARC, ROLE, LINK)
    else:
        leaf = ReferenceNetworkNode(BrelReference({"Name": text}, "l", "http://r/" + role), [], "arc", ARC, ROLE, LINK)
        want = ["REFERENCE", text, role]
        S.cover("reference")
        root = ReferenceNetworkNode(c, [], "arc", ARC, ROLE, LINK)
    lines = [x for x in shown(pprint_module.pprint, leaf).lines if x != ""]
    S.check(len(lines) == 1 and all(w in lines[0] for w in want), "a label or reference is shown with its role, language and text")
    lines = [x for x in shown(pprint_module.pprint, root).lines if x != ""]
    S.check(len(lines) == 1 and "CONCEPT" in lines[0] and "ex:" + name in lines[0], "an element is shown with its kind and name")


def component(S, p):
    """A component is shown with its URI, its information and each of its networks."""
    cs = []
    for i in range(p["components"]):
        nets, want = {}, []
        for k in ("presentation", "calculation", "definition"):
            if S.pick("%s%d" % (k, i), [1, 0]):
                parents, nodes, roots = forest(S, dict(net=k, nodes=p["nodes"], alpha=p["alpha"], kinds=KINDS[:1], weights=[1.0]), "%s%d." % (k, i))
                nets[k] = NETS[k]([nodes[j][0] for j in roots], ROLE + k, LINK, False)
                want.append((ROLE + k, [x for j in roots for x in lines_of(parents, nodes, j, 0)]))
        cs.append((Component(ROLE + "/%d" % i, "info " + S.str("info%d" % i, p["alpha"], 1), nets.get("presentation"), nets.get("calculation"), nets.get("definition")), want))
    if p["components"] == 1 and S.pick("list", [0, 1]) == 0:
        lines = shown(pprint_module.pprint, cs[0][0]).lines
    else:
        lines = shown(pprint_module.pprint, [c for c, _ in cs]).lines
    lines = [x for x in lines if x != ""]
    at = 0
    for c, want in cs:
        S.check(len(lines) >= at + 2 and c.get_URI() in lines[at] and c.get_info() in lines[at + 1], "a component is shown with its URI and its information")
        at += 2
        for role, ls in want:
            S.check(len(lines) >= at + 2 + len(ls) and any(role in x for x in lines[at : at + 2]), "each network of the component is shown, once")
            same_lines(S, lines[at + 2 : at + 2 + len(ls)], ls, "a network of a component")
            at += 2 + len(ls)
            S.cover("network")
        if not want:
            S.cover("empty")
            if len(lines) > at and "etwork" in lines[at]:
                at += 1
    S.check(at == len(lines), "nothing else is shown")


FACTS = dict(facts=2, segments=["", "d", "e", "de"], periods=[1], units=[1], ids="fgh", has=[1], values=1)

HARNESSES = [
    Harness(table, quick=[dict(FACTS), dict(FACTS, facts=1, segments=["", "d"], periods=[1, 0], units=[1, 0]), dict(FACTS, segments=[""], periods=[1, 0], units=[1, 0], has=[1, 0], values=0, _split={"has id0": 2}), dict(FACTS, facts=3, segments=["", "d"], values=0, _split={"segment0": 2}), dict(FACTS, segments=[""], instants=1, entities=[0, 1], has=[1, 0]), dict(FACTS, facts=8, ids="fghijklm", plan=["", "d", "", "e", "de", "", "e", "d"], values=0)], thorough=[dict(FACTS, facts=3, _split={"segment0": 4, "segment1": 4}), dict(FACTS, segments=["", "d"], periods=[1, 0], units=[1, 0], has=[1, 0], _split={"segment0": 2, "concept0": 2, "unit0": 2, "has id0": 2})], covers=["table", "gap"], bounds="1-3 (or 8 fixed) facts with free ids (or none), values, concepts, and up to 2 of 2 dimensions, with and without units, instants and durations"),
    Harness(single, quick=[dict(FACTS, facts=1, periods=[1, 0], units=[1, 0], has=[1, 0])], thorough=[dict(FACTS, facts=2, periods=[1, 0], units=[1, 0], has=[1, 0], _split={"segment0": 4, "concept0": 2, "unit0": 2})], covers=["single"], bounds="1-2 facts as above"),
    Harness(
        network,
        quick=[
            dict(net="presentation", nodes=4, alpha="ab", kinds=["CONCEPT", "ABSTRACT"], _split={"kind0": 2}),
            dict(net="presentation", nodes=2, alpha="ab", kinds=KINDS),
            dict(net="definition", nodes=3, alpha="ab", kinds=KINDS[2:5], _split={"kind0": 3}),
            dict(net="calculation", nodes=3, alpha="ab", weights=[1.0, -1.0, 0.0625]),
            dict(net="footnote", nodes=3, alpha="ab"),
            dict(net="calculation", nodes=9, alpha="ab", free=1, weights=[1.0], parents=[-1, 0, 1, 2, 3, 4, 5, 1, -1]),
            dict(net="presentation", nodes=10, alpha="ab", free=1, kinds=["CONCEPT"], parents=[-1, 0, 0, 0, 0, 0, 0, 4, 0, -1]),
        ],
        thorough=[
            dict(net="presentation", nodes=5, alpha="ab", kinds=["CONCEPT", "ABSTRACT"], _split={"kind0": 2, "kind1": 2, "parent2": 3}),
            dict(net="definition", nodes=4, alpha="ab", kinds=KINDS[:4], _split={"kind0": 4, "kind1": 4}),
            dict(net="calculation", nodes=5, alpha="ab", weights=[1.0, -0.001], _split={"weight0": 2, "weight1": 2, "parent2": 3}),
            dict(net="footnote", nodes=4, alpha="ab", _split={"kind0": 3, "kind1": 3}),
        ],
        covers=["network"],
        bounds="all forests of up to 4 (thorough 5) nodes with free kinds, names, weights; trees of 9-10 nodes, 7 levels or 7 siblings; networks and single nodes",
    ),
    Harness(resources, quick=[dict(alpha="abAB-")], covers=["label", "reference"], bounds="a label and a reference with free role, language and text"),
    Harness(component, quick=[dict(components=1, nodes=2, alpha="ab"), dict(components=2, nodes=1, alpha="ab")], thorough=[dict(components=1, nodes=3, alpha="ab"), dict(components=2, nodes=2, alpha="ab", _split={"presentation0": 2, "presentation1": 2, "calculation0": 2})], covers=["network", "empty"], bounds="1-2 components with any of their 3 networks of 1-2 (thorough 3) nodes"),
]
ASSUMPTIONS = ["the console and prettytable are stand-ins that record what is printed; the drawing of the tree is free except for its indentation"]
