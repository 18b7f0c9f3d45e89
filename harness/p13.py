"""P13: components are the declared roles with the networks of these roles."""
from harness.lib import *
from harness.p09 import ARCROLE, KIND, arc, extended, linkbase, locator
from sx.api import Harness

PROPERTY = "P13"

KINDS = ["calculation", "definition", "presentation"]
BASE = "http://ex.com/role/"
CODE = {k: k.upper() + "_NETWORK_IN_COMPONENT_WITHOUT_USEDON_ELEMENT" for k in KINDS}


def role_type(uri, ident, definition, used, prefix=None, attrs=None):
    """A role declaration.  prefix: how the linkbase namespace is bound in it (None: link, "": default)."""
    m = {None: None, "": {None: NS["link"]}}.get(prefix, {prefix: NS["link"]})
    p = "link" if prefix is None else prefix
    x = el("link:roleType", dict({"roleURI": uri, "id": ident}, **(attrs or {})), nsmap=m)
    if definition is not None:
        x.append(el("link:definition", None, text=definition))
    for pad, u in used:
        x.append(el("link:usedOn", None, text=pad + (p + ":" if p else "") + u + pad))
    return x


def document(target, roles, bound=True):
    if bound:
        root = schema(target)
    else:
        root = el("xs:schema", {"targetNamespace": target}, nsmap=nsmap("xs", "ex"))
    info = el("xs:appinfo", None)
    root.append(el("xs:annotation", None, info))
    for r in roles:
        # appending an element removes its own declarations of namespaces that are known already
        m = {k: v for k, v in r.nsmap.items() if v == NS["link"]}
        x = etree.SubElement(info, r.tag, r.attrib, nsmap=m)
        for c in list(r):
            x.append(c)
        bound_in(x.nsmap, m)
    return root


def bound_in(have, want):
    assert all(have.get(k) == v for k, v in want.items()), (have, want)


def link(kind, role, a="ea", b="eb"):
    tag, arc_tag, cls = KIND[kind]
    return extended(tag, role, locator("x", a), locator("y", b), arc(arc_tag, "x", "y", ARCROLE[0], weight="1"))


def parse(docs, links):
    trees = [("ex.xsd", schema(NS["ex"], *[(i, i.upper()) for i in ("ea", "eb", "ec")])), ("l.xml", linkbase(*links)), ("i.xml", instance())]
    for i, d in enumerate(docs):
        trees.append(("r%d.xsd" % i, d))
    ctx = new_context(trees)
    XMLFilingParser(ctx).parse()
    return ctx


def got_networks(c):
    return {"calculation": c.get_calculation_network(), "definition": c.get_definition_network(), "presentation": c.get_presentation_network()}


def judge(S, c, role, definition, have):
    S.check_eq(c.get_URI(), role, "a component has the URI of its role")
    S.check_eq(c.get_info(), definition or "", "a component has the definition of its role")
    nets = got_networks(c)
    S.check([c.has_calculation_network(), c.has_definition_network(), c.has_presentation_network()] == [k in have for k in KINDS], "a component says which networks it has")
    for k in KINDS:
        n = nets[k]
        S.check((n is not None) is (k in have), "a component has the networks of its role")
        if n is not None:
            S.check(isinstance(n, KIND[k][2]) and not n.is_physical() and n.get_link_role() == role, "each in its place")
    ns = c.get_networks()
    S.check(len(ns) == len(have) and all(any(n is m for m in ns) for n in nets.values() if n is not None), "the networks of a component are listed once each")


def one(S, p):
    """One role: what it declares, what it is used on and which networks it has."""
    role = BASE + S.str("role", "ab/", 1, p["n"])
    definition = S.str("def", "a1 -&<\u00e9", 0, p["n"]) if S.pick("defined", [1, 0]) else None
    prefix = S.pick("prefix", p["prefixes"])
    bound = S.pick("bound", [True, False]) if prefix is not None else True
    used, have, want = [], [], []
    for k in KINDS:
        u = S.pick("used " + k, p["used"])
        if u:
            used.append(("\n " if u == 2 else "", k + "Link"))
        if S.pick("has " + k, [0, 1]):
            have.append(k)
            if not u:
                want.append(CODE[k])
    if S.pick("more", p["more"]):
        used.append(("", "labelLink"))
    ctx = parse([document("http://ex.com/r", [role_type(role, "r", definition, used, prefix)], bound)], [link(k, role) for k in have])
    S.check(sorted(codes(ctx)) == sorted(want), "exactly the networks are reported that the role is not declared to be used on")
    cs = Filing(ctx).get_all_components()
    S.check(len(cs) == 1, "a role gives one component")
    judge(S, cs[0], role, definition, have)
    S.cover("reported" if want else "clean")


def several(S, p):
    """Several roles in several schemas, some declared twice: each has its own networks."""
    used = [("", k + "Link") for k in KINDS]
    names, docs = [], [[], []]
    for i in range(p["k"]):
        r = BASE + S.str("role%d" % i, p.get("alpha", "abA"), p.get("lo", 1), 1)
        d = S.pick("doc%d" % i, [0, 1])
        if r in names:
            S.assume(d == 1)
            S.assume(not any(r == x for x, y in docs[1]))
        docs[d].append((r, "r%d" % i))
        if r not in names:
            names.append(r)
        else:
            S.cover("declared twice")
    info = lambda r: "About " + r
    links, have = [], {}
    for i in range(p["links"]):
        k = S.pick("kind%d" % i, KINDS)
        r = BASE + S.str("link%d" % i, p.get("alpha", "abA"), p.get("lo", 1), 1)
        x, y = S.pick("edge%d" % i, [("ea", "eb"), ("eb", "ec")])
        S.assume(all(not (k == k2 and r == r2) for k2, r2, a, b in have.get("all", [])))
        have.setdefault("all", []).append((k, r, x, y))
        links.append(link(k, r, x, y))
    ctx = parse([document("http://ex.com/r%d" % j, [role_type(r, n, info(r), used) for r, n in d]) for j, d in enumerate(docs)], links)
    S.check(codes(ctx) == [], "no error")
    f = Filing(ctx)
    cs = f.get_all_components()
    S.check(len(cs) == len(names), "each declared role gives one component")
    uris = f.get_all_component_uris()
    for r in names:
        S.check(len([u for u in uris if u == r]) == 1, "the URIs of all components are listed once")
        c = f.get_component(r)
        mine = [(k, x, y) for k, r2, x, y in have["all"] if r2 == r]
        judge(S, c, r, info(r), [k for k, x, y in mine])
        for k, x, y in mine:
            root = got_networks(c)[k].get_root()
            S.check(root.get_report_element().get_id() == x and [n.get_report_element().get_id() for n in root.get_children()] == [y], "the network of the component is the one of its role")
            S.cover("network")
    other = BASE + S.str("other", p.get("alpha", "abA"), 1)
    if other not in names:
        S.check(raises(f.get_component, other) == "ValueError", "a role that is not declared has no component")
        S.cover("undeclared")


def many(S, p):
    """Seven roles in three schemas with up to three networks each."""
    used = [("", k + "Link") for k in KINDS]
    tail = S.str("tail", "ab/1", 1, 2)
    names = [BASE + x for x in ("a", "ab", "a/b", "b", "B", "c1", "c" + tail)]
    S.assume(len(set(names[:6])) == 6 and names[6] not in names[:6])
    lack = tuple(S.pick("lack", p["lack"]) or ())
    shift = S.pick("shift", p["shift"])
    docs, links, have, want = [[], [], []], [], {}, []
    for i, r in enumerate(names):
        u = [x for j, x in enumerate(used) if (i, j) != lack]
        docs[(i * shift) % 3].append(role_type(r, "r%d" % i, "About %d" % i, u))
        for j, k in enumerate(KINDS):
            if (i + j) % 4 != 3:
                links.append(link(k, r, *[("ea", "eb"), ("eb", "ec"), ("ea", "ec")][(i + j) % 3]))
                have.setdefault(i, []).append((k, *[("ea", "eb"), ("eb", "ec"), ("ea", "ec")][(i + j) % 3]))
                if (i, j) == lack:
                    want.append(CODE[k])
    if S.pick("back", [0, 1]):
        links = links[::-1]
    ctx = parse([document("http://ex.com/r%d" % j, d) for j, d in enumerate(docs) if d], links)
    S.check(codes(ctx) == want, "exactly the network is reported that its role is not declared to be used on")
    f = Filing(ctx)
    S.check(len(f.get_all_components()) == 7, "each declared role gives one component")
    uris = f.get_all_component_uris()
    S.check(len(uris) == 7, "the URIs of all components are listed once")
    for i, r in enumerate(names):
        S.check(len([u for u in uris if u == r]) == 1, "the URIs of all components are listed once")
        c = f.get_component(r)
        judge(S, c, r, "About %d" % i, [k for k, x, y in have[i]])
        for k, x, y in have[i]:
            root = got_networks(c)[k].get_root()
            S.check(root.get_report_element().get_id() == x and [n.get_report_element().get_id() for n in root.get_children()] == [y], "the network of the component is the one of its role")
    S.cover("reported" if want else "clean")


HARNESSES = [
    Harness(
        many,
        quick=[dict(lack=[None, (6, 0), (5, 1)], shift=[1, 3])],
        thorough=[dict(lack=[None] + [(i, j) for i in range(7) for j in range(3)], shift=[1, 2, 3], _split={"lack": 22})],
        covers=["clean", "reported"],
        bounds="seven roles, one with a symbolic URI, in one or three schemas, 16 networks in two orders, one use left out",
    ),
    Harness(
        one,
        quick=[
            dict(n=1, prefixes=[None], used=[0, 1], more=[0]),
            dict(n=1, prefixes=["", "l"], used=[1, 2, 0], more=[0, 1], _split={"used calculation": 3, "used definition": 3}),
        ],
        thorough=[dict(n=2, prefixes=[None, "", "l", "xs2"], used=[0, 1, 2], more=[0, 1], _split={"used calculation": 3, "used definition": 3})],
        covers=["clean", "reported"],
        bounds="all uses and networks of three kinds, usedOn with white space, the linkbase namespace as link, as l and as default namespace, definitions of up to 1 (2) free characters or none",
    ),
    Harness(several, quick=[dict(k=2, links=2), dict(k=2, links=1, lo=0, alpha="a/")], thorough=[dict(k=3, links=2, _split={"doc0": 2, "doc1": 2, "kind0": 3}), dict(k=2, links=3, _split={"doc0": 2, "doc1": 2, "kind0": 3, "kind1": 3}), dict(k=2, links=2, lo=0, alpha="a/#.", _split={"doc0": 2, "doc1": 2, "kind0": 3})], covers=["declared twice", "network", "undeclared"], bounds="2 (3) roles of three URIs, which may begin with one another or differ in case, a slash or a fragment, in two schemas, 1-2 (3) links"),
]
ASSUMPTIONS = ["declarations of one role are alike, as the specification requires", "the prefix xlink is used for XLink"]
