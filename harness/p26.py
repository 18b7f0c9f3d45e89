"""P26: the tables of table linkbases are read with the breakdowns, nodes and rules they declare."""
from harness.lib import *
from harness.p09 import linkbase
from sx.api import Harness
from brel.formula.aspects.concept_formula import ConceptFormula
from brel.formula.aspects.dimension.explicit_dimension_formula import ExplicitDimensionFormula
from brel.formula.aspects.entity_identifier_formula import EntityIdentifierFormula
from brel.formula.aspects.period.period_duration_formula import PeriodDurationFormula
from brel.formula.aspects.period.period_forever_formula import PeriodForeverFormula
from brel.formula.aspects.period.period_instant_formula import PeriodInstantFormula
from brel.table_linkbases.axis import Axis
from brel.table_linkbases.definition_model.definition_nodes.aspect_node import AspectNode
from brel.table_linkbases.definition_model.definition_nodes.concept_relationship_node import ConceptRelationshipNode
from brel.table_linkbases.definition_model.definition_nodes.dimension_relationship_node import DimensionRelationshipNode
from brel.table_linkbases.definition_model.definition_nodes.rule_node import RuleNode

PROPERTY = "P26"

NS["gen"] = "http://xbrl.org/2008/generic"
NS["table"] = "http://xbrl.org/2014/table"
NS["formula"] = "http://xbrl.org/2008/formula"
NS["xfi"] = "http://www.xbrl.org/2008/function/instance"
TREE = {"b": ("table:tableBreakdownArc", "table-breakdown"), "r": ("table:breakdownTreeArc", "breakdown-tree"), "n": ("table:definitionNodeSubtreeArc", "definition-node-subtree")}
FIRST, LAST = "parent-first", "children-first"
DIM = {"abstract": "true", "type": "xbrli:stringItemType", "substitutionGroup": "xbrldt:dimensionItem"}
MEM = {"abstract": "true", "type": "nonnum:domainItemType"}
AXES = ["descendant", "child", "sibling", "sibling-or-descendant", "descendant-or-self", "child-or-self", "sibling-or-self", "sibling-or-descendant-or-self"]


def gen_link(role, *children):
    e = el("gen:link", {"xlink:type": "extended", "xlink:role": role}, nsmap=nsmap("gen", "table", "formula", "xfi", "xlink", "ex"))
    for c in children:
        e.append(c)
    return e


def resource(kind, label, *children, pco="", **attrs):
    a = {"xlink:type": "resource", "xlink:label": label}
    if pco:
        a["parentChildOrder"] = pco
    for k, v in attrs.items():
        if v is not None:
            a[k] = v
    return el("table:" + kind, a, *children)


def arc(kind, a, b, order="", axis=None):
    tag, role = TREE[kind]
    attrs = {"xlink:type": "arc", "xlink:from": a, "xlink:to": b, "xlink:arcrole": "http://xbrl.org/arcrole/2014/" + role, "axis": axis}
    if order:
        attrs["order"] = order
    return el(tag, attrs)


def read(*links, extra=(), apart=False):
    elements = [("ea", "A"), ("eb", "B"), ("ed", "D", DIM), ("ef", "F", DIM), ("em", "M")]
    trees = [("ex.xsd", schema(NS["ex"], *elements)), ("i.xml", instance(*extra))]
    if apart:
        for i, x in enumerate(links):
            trees.append(("l%d.xml" % i, linkbase(x)))
    else:
        trees.append(("l.xml", linkbase(*links)))
    ctx = new_context(trees)
    XMLFilingParser(ctx).parse()
    return ctx.get_table_linkbase_repository()


def only(x):
    assert len(x) == 1, len(x)
    return x[0]


def node_tree(S, p):
    """One table: the breakdowns on its axes and the trees of their nodes, with orders, and who comes first."""
    role = "http://ex.com/" + S.str("role", "ab#", 0, 1)
    orders = {k: S.pick("order " + k, p["orders"]) for k in p["ordered"]}
    parents = [S.pick("parent%d" % i, ["b0", "b1"] + ["n%d" % j for j in range(i)]) for i in range(p["n"])]
    pco = {k: S.pick("pco " + k, p["pco"]) for k in p["chosen"]}
    axis = [S.pick("axis%d" % i, ["x", "y", "z"]) for i in range(2)]
    nodes = [resource("table", "t", id="tid", pco=pco.get("t", ""))]
    nodes += [resource("breakdown", "b%d" % i, id="bid%d" % i, pco=pco.get("b%d" % i, "")) for i in range(2)]
    nodes += [resource("ruleNode", "n%d" % i, id="nid%d" % i, pco=pco.get("n%d" % i, "")) for i in range(p["n"])]
    arcs = [arc("b", "t", "b%d" % i, orders.get("b%d" % i, ""), axis[i]) for i in range(2)]
    arcs += [arc("r" if x[0] == "b" else "n", x, "n%d" % i, orders.get("n%d" % i, "")) for i, x in enumerate(parents)]
    mixed = S.pick("mixed", p["mixed"])
    if mixed == "arcs first":
        nodes = arcs + nodes
    elif mixed == "comments":
        nodes = nodes[:2] + [etree.Comment("c")] + nodes[2:] + [etree.Comment("d")] + arcs
    else:
        nodes = nodes + arcs
    repo = read(gen_link(role, *nodes))
    t = only(repo.get_all_definition_tables())
    S.check(only(repo.get_definition_table_with_linkrole(role)) is t, "a table is found by its link role")
    S.check_eq(t.get_linkrole(), role, "a table has its link role")
    first = pco.get("t", "") or FIRST
    S.check(t.id == "tid" and t.label == "t" and t.parent_child_order.value == first, "a table is the one declared")
    for x in "xyz":
        got = t.breakdowns[Axis(x)]
        S.check([b.id for b, o in got] == ["bid%d" % i for i in range(2) if axis[i] == x], "the breakdowns of a table are on their axes")
        for b, o in got:
            k = b.label
            S.check(o == float(orders.get(k, "") or "1") and b.axis == Axis(x), "with their orders")
            mine = pco.get(k, "") or first
            S.check(b.parent_child_order.value == mine, "a breakdown without an order of parents and children has that of its table")
            tree(S, b.roots, k, parents, orders, pco, mine)
    S.cover("mixed" if mixed else "plain")
    if any(x == "n0" for x in parents):
        S.cover("deep")


def tree(S, got, above, parents, orders, pco, first):
    want = [i for i, x in enumerate(parents) if x == above]
    S.check([n.id for n, o in got] == ["nid%d" % i for i in want], "a breakdown or node has exactly the nodes that arcs put below it")
    for n, o in got:
        S.check(o == float(orders.get(n.label, "") or "1"), "the order of a node is that of its arc")
        mine = pco.get(n.label, "") or first
        S.check(isinstance(n, RuleNode) and n.parent_child_order.value == mine, "a node without an order of parents and children has that of what is above it")
        tree(S, n.children, n.label, parents, orders, pco, mine)


def large(S, p):
    """A table with many breakdowns and nodes, deep and wide."""
    n, nb = 14, 7
    shape = S.pick("shape", p["shapes"])
    above = {
        "chain": lambda i: "b0" if i == 0 else "n%d" % (i - 1),
        "wide": lambda i: "b1" if i == 0 else "n0",
        "roots": lambda i: "b%d" % (i % 2),
        "mixed": lambda i: "b%d" % (i // 3) if i % 3 == 0 else "n%d" % (i - 1 - i % 2),
    }[shape]
    parents = [above(i) for i in range(n)]
    at = S.pick("at", p["at"])
    text = S.str("order", "0123456789", 1, 2) + ".5"
    orders = {"n%d" % at: text, "b%d" % (at % nb): text}
    pco = {"n%d" % at: LAST}
    axis = S.pick("axis", p["axis"])
    nodes = [resource("table", "t")]
    nodes += [resource("breakdown", "b%d" % i, id="bid%d" % i) for i in range(nb)]
    nodes += [resource("ruleNode", "n%d" % i, id="nid%d" % i, pco=pco.get("n%d" % i, "")) for i in range(n)]
    nodes += [arc("b", "t", "b%d" % i, orders.get("b%d" % i, ""), axis[i]) for i in range(nb)]
    nodes += [arc("r" if x[0] == "b" else "n", x, "n%d" % i, orders.get("n%d" % i, "")) for i, x in enumerate(parents)]
    t = only(read(gen_link("http://ex.com/r", *nodes)).get_all_definition_tables())
    for x in "xyz":
        got = t.breakdowns[Axis(x)]
        S.check([b.id for b, o in got] == ["bid%d" % i for i in range(nb) if axis[i] == x], "the breakdowns of a table are on their axes")
        for b, o in got:
            S.check(o == float(orders.get(b.label, "") or "1"), "with their orders")
            tree(S, b.roots, b.label, parents, orders, pco, FIRST)
    S.cover(shape)


def several(S, p):
    """Several tables, in one link, in links of one role or in documents of their own."""
    roles = ["http://ex.com/" + S.str("role%d" % i, "ab", 0, p["n"]) for i in range(2)]
    where = S.pick("where", ["links", "documents", "one link"])
    per = S.pick("tables", [1, 2])
    links, want = [], []
    for i, r in enumerate(roles):
        if where == "one link" and i:
            break
        body = []
        for j in range(per):
            # the labels are those of the other link
            body += [resource("table", "t%d" % j, id="t%d%d" % (i, j)), resource("breakdown", "b%d" % j, id="b%d%d" % (i, j)), resource("ruleNode", "n%d" % j, id="n%d%d" % (i, j))]
            want.append((r, "%d%d" % (i, j)))
        for j in range(per):
            body += [arc("b", "t%d" % j, "b%d" % j, axis="xy"[j]), arc("r", "b%d" % j, "n%d" % j)]
        links.append(gen_link(r, *body))
    repo = read(*links, apart=where == "documents")
    ts = repo.get_all_definition_tables()
    S.check(len(ts) == len(want), "every table is there once")
    for r, k in want:
        t = only([t for t in ts if t.id == "t" + k])
        S.check_eq(t.get_linkrole(), r, "a table has the role of its link")
        j = int(k[1])
        b = only(t.breakdowns[Axis("xy"[j])])[0]
        S.check(sum(len(x) for x in t.breakdowns.values()) == 1 and b.id == "b" + k and only(b.roots)[0].id == "n" + k, "a table has the breakdowns of its own link")
        S.check(len([x for x in repo.get_definition_table_with_linkrole(r) if x is t]) == 1, "a table is found by its link role")
        S.check(len(repo.get_definition_table_with_linkrole(r)) == len([1 for r2, k2 in want if r2 == r]), "only the tables of a role are found by it")
    S.cover(where)


def rule(S, kind, i):
    x = S.str("expression%d" % i, "a1$ ", 1, 1)
    if kind == "concept":
        return el("formula:concept", None, el("formula:qname", None, text="ex:" + x)), x
    if kind == "concept expression":
        return el("formula:concept", None, el("formula:qnameExpression", None, text=x)), x
    if kind == "forever":
        return el("formula:period", None, el("formula:forever", None)), x
    if kind == "instant":
        return el("formula:period", None, el("formula:instant", {"value": x})), x
    if kind == "duration":
        return el("formula:period", None, el("formula:duration", {"start": x, "end": "e" + x})), x
    if kind == "entity":
        return el("formula:entityIdentifier", {"scheme": x, "value": "v" + x}), x
    if kind == "scheme only":
        return el("formula:entityIdentifier", {"scheme": x}), x
    if kind == "value only":
        return el("formula:entityIdentifier", {"value": x}), x
    if kind == "no instant":
        return el("formula:period", None, el("formula:instant", None)), x
    if kind == "start only":
        return el("formula:period", None, el("formula:duration", {"start": x})), x
    if kind == "end only":
        return el("formula:period", None, el("formula:duration", {"end": x})), x
    if kind == "member":
        return el("formula:explicitDimension", {"dimension": "ex:D"}, el("formula:member", None, el("formula:qname", None, text="ex:" + x))), x
    if kind == "member expression":
        return el("formula:explicitDimension", {"dimension": "ex:D"}, el("formula:member", None, el("formula:qnameExpression", None, text=x))), x
    return el("formula:explicitDimension", {"dimension": "ex:D"}, el("formula:omit", None)), x


RULES = ["concept", "concept expression", "forever", "instant", "duration", "entity", "scheme only", "value only", "no instant", "start only", "end only", "member", "member expression", "omit"]


def judge_rule(S, r, kind, x):
    name = lambda n: (n.get_URL(), n.get_local_name())
    if kind == "concept":
        S.check(isinstance(r, ConceptFormula) and name(r.get_qname()) == (NS["ex"], x) and r.get_expression() is None, "a rule names its concept")
    elif kind == "concept expression":
        S.check(isinstance(r, ConceptFormula) and r.get_qname() is None and r.get_expression().get_expression() == x, "a rule has the expression for its concept")
    elif kind == "forever":
        S.check(isinstance(r, PeriodForeverFormula), "a rule has its period")
    elif kind == "instant":
        S.check(isinstance(r, PeriodInstantFormula) and r.get_instant_expression().get_expression() == x, "a rule has its period")
    elif kind == "duration":
        S.check(isinstance(r, PeriodDurationFormula) and r.get_start_expression().get_expression() == x and r.get_end_expression().get_expression() == "e" + x, "a rule has its period")
    elif kind in ("scheme only", "value only"):
        S.check(isinstance(r, EntityIdentifierFormula), "a rule has its entity")
        have, lack = (r.get_scheme(), r.get_value()) if kind == "scheme only" else (r.get_value(), r.get_scheme())
        S.check(have.get_expression() == x and lack is None, "a rule has its entity")
    elif kind == "no instant":
        S.check(isinstance(r, PeriodInstantFormula) and r.get_instant_expression() is None, "a rule has its period")
    elif kind in ("start only", "end only"):
        S.check(isinstance(r, PeriodDurationFormula), "a rule has its period")
        have, lack = (r.get_start_expression(), r.get_end_expression()) if kind == "start only" else (r.get_end_expression(), r.get_start_expression())
        S.check(have.get_expression() == x and lack is None, "a rule has its period")
    elif kind == "entity":
        S.check(isinstance(r, EntityIdentifierFormula) and r.get_scheme().get_expression() == x and r.get_value().get_expression() == "v" + x, "a rule has its entity")
    else:
        S.check(isinstance(r, ExplicitDimensionFormula) and name(r.get_dimension()) == (NS["ex"], "D"), "a rule has its dimension")
        S.check(r.get_should_be_ommited() is (kind == "omit"), "a rule says whether the dimension is left out")
        if kind == "member":
            S.check(name(r.get_member()) == (NS["ex"], x), "a rule has its member")
        elif kind == "omit":
            S.check(r.get_member() is None, "a rule that leaves the dimension out has no member")
        else:
            S.check(r.get_member().get_expression() == x, "a rule has the expression for its member")


def rules(S, p):
    """The rules of a rule node, in sets with and without a tag, and what the node says of itself."""
    attrs = {k: S.pick(k, p["flags"]) for k in ("abstract", "merge")}
    selector = S.pick("selector", [None, "s"])
    sets, children, want = [], [], {}
    for i in range(p["k"]):
        kind = S.pick("kind%d" % i, p["kinds"])
        tag = S.pick("tag%d" % i, p["tags"])
        e, x = rule(S, kind, i)
        S.assume(kind not in ("concept", "member") or x != " " and x != "$" and x != "1")
        if tag == "":
            children.append(e)
        elif tag in sets:
            children[-1].append(e)
            S.assume(children[-1].get("tag") == tag)
        else:
            children.append(el("table:ruleSet", {"tag": tag}, e))
            sets.append(tag)
        want.setdefault(tag, []).append((kind, x))
    repo = read(gen_link("http://ex.com/r", resource("table", "t"), resource("breakdown", "b"), resource("ruleNode", "n", *children, tagSelector=selector, **attrs), arc("b", "t", "b", axis="y"), arc("r", "b", "n")))
    n = only(only(only(repo.get_all_definition_tables()).breakdowns[Axis.Y])[0].roots)[0]
    S.check(n.is_abstract is (attrs["abstract"] == "true") and n.is_merge is (attrs["merge"] == "true"), "a rule node says whether it is abstract and merged")
    S.check(n.tag_selector == selector, "a node has its selector")
    # without rules there is one empty set
    S.check(sorted((k or "") for k in n.rule_sets) == sorted(want or {"": []}), "a rule node has exactly the rule sets it declares")
    for tag in want:
        s = n.rule_sets[tag or None]
        S.check(s.get_tag() == (tag or None) and s.is_default() is (tag == ""), "a rule set has its tag")
        S.check(len(s.get_rules()) == len(want[tag]), "a rule set has exactly its rules")
        for r, (kind, x) in zip(s.get_rules(), want[tag]):
            judge_rule(S, r, kind, x)
    S.cover("tagged" if sets else "default")


def aspects(S, p):
    """Aspect nodes, for the core aspects and for dimensions, whether facts use them or not."""
    kind = S.pick("kind", ["concept", "entityIdentifier", "period", "unit", "dimension"])
    name = "D" if kind != "dimension" else S.pick("dimension", ["D", "F"])
    flag = S.pick("flag", [None, "true", "false"]) if kind == "dimension" else None
    used = S.pick("used", [0, 1])
    seg = el("xbrldi:explicitMember", {"dimension": "ex:D"}, text="ex:M")
    facts = [context_el("c1", segment=[seg]), unit_el("u1"), el("ex:A", {"contextRef": "c1", "unitRef": "u1", "decimals": "0", "id": "f"}, text="1")] if used else []
    a = el("table:" + kind + "Aspect", {"includeUnreportedValue": flag}, text="ex:" + name if kind == "dimension" else None)
    more = resource("ruleNode", "m", id="m")
    repo = read(gen_link("http://ex.com/r", resource("table", "t"), resource("breakdown", "b"), resource("aspectNode", "n", a, id="nid"), more, arc("b", "t", "b", axis="z", order="2"), arc("r", "b", "n", "3"), arc("r", "b", "m", "4")), extra=facts)
    b, o = only(only(repo.get_all_definition_tables()).breakdowns[Axis.Z])
    S.check(o == 2 and [(n.id, o) for n, o in b.roots] == [("nid", 3), ("m", 4)], "the nodes of a breakdown are those its arcs name")
    n = b.roots[0][0]
    S.check(isinstance(n, AspectNode), "an aspect node is one")
    S.check(n.get_participating_aspect().get_name() == {"entityIdentifier": "entity", "dimension": "ex:" + name}.get(kind, kind), "an aspect node has its aspect")
    S.check(n.get_include_unreported_value() is (flag == "true"), "an aspect node says whether values that are not reported are included")
    S.cover(kind)


def relationships(S, p):
    """Relationship nodes, of concepts and of dimensions."""
    dimension = S.pick("dimension", [0, 1])
    axis = S.pick("axis", p["axes"])
    S.assume(not dimension or axis is None or "sibling" not in axis)
    sources = S.pick("sources", p["sources"])
    generations = S.pick("generations", [None, "1"])
    role = "http://ex.com/" + S.str("role", "ab", 1, 1) if S.pick("roled", [0, 1]) else None
    children = [el("table:relationshipSource", None, text=x) for x in sources]
    for k, v in (("linkrole", role), ("formulaAxis", axis), ("generations", generations)):
        if v is not None:
            children.append(el("table:" + k, None, text=v))
    names = False
    if dimension:
        S.assume("xfi:root" not in sources)
        children.append(el("table:dimension", None, text="ex:F"))
    else:
        children.append(el("table:arcrole", None, text="http://arc/role"))
        names = S.pick("names", [False, True])
        if names:
            children += [el("table:linkname", None, text="ex:link"), el("table:arcname", None, text="ex:arc")]
    kind = "dimensionRelationshipNode" if dimension else "conceptRelationshipNode"
    node = resource(kind, "n", *children, id="nid", pco=S.pick("pco", ["", LAST]))
    repo = read(gen_link("http://ex.com/r", resource("table", "t"), resource("breakdown", "b"), node, arc("b", "t", "b", axis="x"), arc("r", "b", "n", "1.5")))
    b = only(only(repo.get_all_definition_tables()).breakdowns[Axis.X])[0]
    S.check([(n.id, o) for n, o in b.roots] == [("nid", 1.5)], "the nodes of a breakdown are those its arcs name")
    n = b.roots[0][0]
    S.check(isinstance(n, DimensionRelationshipNode if dimension else ConceptRelationshipNode), "a relationship node is of its kind")
    S.check_eq(n.linkrole, role or "http://www.xbrl.org/2003/role/link", "a relationship node has its link role")
    S.check(n.formula_axis.value == (axis or "descendant-or-self"), "a relationship node has its axis")
    S.check(n.generations == int(generations or "0"), "a relationship node has its number of generations")
    clark = [x if isinstance(x, str) else x.clark_notation() for x in n.relationship_sources]
    root = "{" + NS["xfi"] + "}root"
    want = [root if x == "xfi:root" else "{" + NS["ex"] + "}" + x[3:] for x in sources]
    S.check(clark == (want or ([] if dimension else [root])), "a relationship node begins at its sources")
    if dimension:
        S.check(n.get_dimension().get_id() == "ef", "a relationship node has its dimension")
    else:
        S.check(n.arcrole == "http://arc/role", "a relationship node has its arc role")
        S.check((n.arcname is not None) is names and (n.linkname is not None) is names, "and the names of arcs and links, if it has them")
    S.cover("dimension" if dimension else "concept")


PCO = ["", FIRST, LAST]
HARNESSES = [
    Harness(
        node_tree,
        quick=[
            dict(n=3, orders=[""], ordered=[], pco=[""], chosen=[], mixed=["", "arcs first", "comments"]),
            dict(n=2, orders=["", "1.0", "2", "-1.5"], ordered=["b0", "n0", "n1"], pco=[""], chosen=[], mixed=[""], _split={"order b0": 4}),
            dict(n=2, orders=["2.5"], ordered=["n1"], pco=PCO, chosen=["t", "b0", "n0"], mixed=[""], _split={"pco t": 3}),
        ],
        thorough=[
            dict(n=4, orders=[""], ordered=[], pco=[""], chosen=[], mixed=["", "arcs first", "comments"], _split={"axis0": 3, "axis1": 3}),
            dict(n=3, orders=["", "1.0", "2", "-1.5", "007", "1e1"], ordered=["b0", "n0", "n1"], pco=[""], chosen=[], mixed=[""], _split={"order b0": 6, "order n0": 6}),
            dict(n=3, orders=["2.5"], ordered=["n1"], pco=PCO, chosen=["t", "b0", "n0", "n1"], mixed=[""], _split={"pco t": 3, "pco b0": 3}),
        ],
        covers=["mixed", "plain", "deep"],
        bounds="a table with two breakdowns on any axes and up to 3 (4) rule nodes in all trees, with all spellings of orders from a list and all ways to give the order of parents and children; comments between, arcs before nodes",
    ),
    Harness(
        large,
        quick=[dict(shapes=["chain", "wide", "roots", "mixed"], at=[0, 5, 13], axis=["xyzxyzx", "zzzzzzz"])],
        thorough=[dict(shapes=["chain", "wide", "roots", "mixed"], at=list(range(14)), axis=["xyzxyzx", "zzzzzzz", "xxxxyyz"], _split={"shape": 4})],
        covers=["chain", "wide", "roots", "mixed"],
        bounds="seven breakdowns and fourteen nodes in four shapes, one with a symbolic order and an order of parents and children of its own",
    ),
    Harness(several, quick=[dict(n=1)], thorough=[dict(n=3, _split={"where": 3})], covers=["links", "documents", "one link"], bounds="up to four tables in two links of symbolic roles that use the same labels, in one document or two"),
    Harness(
        rules,
        quick=[dict(k=1, kinds=RULES, flags=[None, "true", "false"], tags=["", "a"]), dict(k=3, kinds=["concept", "instant"], flags=[None], tags=["", "a", "b"]), dict(k=0, kinds=[], flags=["true"], tags=[])],
        thorough=[dict(k=2, kinds=RULES, flags=[None, "true"], tags=["", "a", "b"], _split={"kind0": 14})],
        covers=["tagged", "default"],
        bounds="up to three rules of fourteen kinds in any rule sets, with symbolic names and expressions of one character",
    ),
    Harness(aspects, quick=[dict()], thorough=[dict()], covers=["concept", "entityIdentifier", "period", "unit", "dimension"], bounds="all kinds of aspects, two dimensions, of which facts use one or none"),
    Harness(
        relationships,
        quick=[dict(axes=[None, "child", "sibling", "descendant"], sources=[[], ["ex:A"], ["ex:A", "ex:M"], ["xfi:root"]])],
        thorough=[dict(axes=[None] + AXES, sources=[[], ["ex:A"], ["ex:A", "ex:M"], ["ex:M", "ex:A"], ["xfi:root"]], _split={"sources": 5})],
        covers=["dimension", "concept"],
        bounds="relationship nodes of both kinds with all their parts given or left out",
    ),
]
ASSUMPTIONS = [
    "the labels of a link are unique",
    "filters, parameters and labels of tables are not looked at: filters of the published namespaces are not read by brel (it compares their names with namespaces that no filter has)",
    "booleans are written true or false",
]
