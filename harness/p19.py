"""P19: footnotes and what they are attached to."""
from harness.lib import *
from sx.api import Harness
from brel.networks import FootnoteNetwork
from brel.resource import BrelFootnote

PROPERTY = "P19"
HEADER = "IXBRL_REFERENCES_ELEMENT_WITHOUT_CHILDREN"
DEFAULT = {
    "role": "http://www.xbrl.org/2003/role/footnote",
    "link": "http://www.xbrl.org/2003/role/link",
    "arc": "http://www.xbrl.org/2003/arcrole/fact-footnote",
}
CHAIN = "http://www.xbrl.org/2009/arcrole/fact-explanatoryFact"
ROLES = [None, "http://r/a", "http://r/b"]
LANGS = ["en", "de-CH"]


def plain(value):
    """The text of mark-up that consists of one element without children."""
    if value.startswith("<"):
        value = value[value.index(">") + 1 : value.rindex("</")]
    return value.replace("&lt;", "<").replace("&gt;", ">").replace("&amp;", "&")


def thing(node):
    if node.points_to() == "fact":
        return ("fact", node.get_fact()._get_id())
    if node.points_to() == "resource":
        return ("footnote", node.get_resource().get_label())
    return ("element", node.get_report_element().get_id())


def expected(arcs, kinds):
    """arcs: (from, to, order) of one network.  The forest they describe."""

    def below(a, depth):
        if depth == 0:
            return []
        res = []
        for f, t, o in arcs:
            if f == a:
                k = len(res)
                while k > 0 and o < res[k - 1][1]:
                    k -= 1
                res.insert(k, ((kinds[t], t), o, below(t, depth - 1)))
        return res

    inner = [t for f, t, o in arcs]
    roots = []
    for x, _, _ in arcs:
        if x not in inner and x not in roots:
            roots.append(x)
    return [((kinds[r], r), None, below(r, 4)) for r in roots]


def compare(S, nodes, want, arcrole, linkrole):
    S.check(len(nodes) == len(want), "there is one node for everything a footnote is attached to")
    for n, (what, order, below) in zip(nodes, want):
        S.check_eq(list(thing(n)), list(what), "footnotes are below the facts that they are given for, in their order")
        S.check(n.get_arc_role() == arcrole and n.get_link_role() == linkrole, "nodes have the roles of their relationships")
        if order is not None:
            S.check_eq(n.get_order(), order, "a node has the order of its relationship")
        compare(S, n.get_children(), below, arcrole, linkrole)


def check_networks(S, f, arcs, kinds):
    """arcs: (from, to, order, arcrole, linkrole)"""
    got = [n for n in f.get_all_physical_networks() if isinstance(n, FootnoteNetwork)]
    groups = []
    for a in arcs:
        if (a[4], a[3]) not in groups:
            groups.append((a[4], a[3]))
    S.check(len(got) == len(groups), "there is one network of footnotes for each link role and arc role")
    for linkrole, arcrole in groups:
        mine = [a[:3] for a in arcs if a[4] == linkrole and a[3] == arcrole]
        want = expected(mine, kinds)
        ns = [n for n in got if n.get_link_role() == linkrole and [r.get_arc_role() for r in n.get_roots()][:1] == [arcrole]]
        S.check(len(ns) == 1, "a network of footnotes has the link role of its relationships")
        compare(S, ns[0].get_roots(), want, arcrole, linkrole)
        S.check(any(n is ns[0] for n in f.get_all_physical_networks()), "networks of footnotes are among all networks")
    return got


def resources(got):
    out = {}
    for n in got:
        for node in n.get_all_nodes():
            if node.points_to() == "resource":
                out[node.get_resource().get_label()] = node.get_resource()
    return out


# inline documents ----------------------------------------------------------


def fact_el(id):
    return el("ix:nonNumeric", {"id": id, "name": "ex:A", "contextRef": "c1"}, text="t")


def open_inline(body, relationships):
    doc = inline([el("xhtml:p", None, *body)], [context_el("c1")] + list(relationships))
    return open_xhtml([("d.htm", doc), ("ex.xsd", schema(NS["ex"], ("ex_A", "A", {"type": "xbrli:stringItemType"})))])


def relationship(S, tag, froms, tos, p, force=None):
    """(element, arcs, froms, tos)"""
    order = S.pick("order" + tag, p["orders"])
    arcrole = S.pick("arcrole" + tag, p["arcroles"])
    linkrole = S.pick("linkrole" + tag, p["linkroles"])
    gap = p.get("gap", " ")
    x = el("ix:relationship", {"fromRefs": gap.join(froms), "toRefs": gap.join(tos), "order": order, "arcrole": arcrole, "linkRole": linkrole})
    o = 1.0 if order is None else float(order)
    arcs = [(f, t, o, arcrole or DEFAULT["arc"], linkrole or DEFAULT["link"]) for t in tos for f in froms]
    return x, arcs


def subset(S, tag, names):
    """An ordered choice of one or two of the names."""
    a = S.pick("x" + tag, names)
    b = S.pick("y" + tag, [None] + names)
    S.assume(b != a)
    return [a] if b is None else [a, b]


def inlined(S, p):
    """Relationships of inline documents between some facts and footnotes."""
    facts = ["f%d" % i for i in range(p["facts"])]
    notes = ["n%d" % i for i in range(p["notes"])]
    kinds = dict([(f, "fact") for f in facts] + [(n, "footnote") for n in notes])
    rels, arcs = [], []
    for k in range(p["rels"]):
        froms = subset(S, "f%d" % k, facts)
        tos = subset(S, "t%d" % k, notes) if p.get("only", True) else [S.pick("t%d" % k, notes + facts)]
        for a in froms:
            for b in tos:
                S.assume(a != b and (kinds[b] == "footnote" or a < b))
        x, more = relationship(S, str(k), froms, tos, p)
        for m in more:
            S.assume(not any(m[:2] == a[:2] and m[3:] == a[3:] for a in arcs))
        rels.append(x)
        arcs += more
    body = [fact_el(f) for f in facts] + [el("ix:footnote", {"id": n, "xml:lang": "en"}, text=n) for n in notes]
    if S.pick("late", [0, 1]):
        body = list(reversed(body))
    f = open_inline(body, rels)
    S.check([c for c in codes(f) if c != HEADER] == [], "no error for relationships between what there is")
    check_networks(S, f, arcs, kinds)
    S.cover("networks")


CHUNKS = [(["f0", "f1", "f2"], ["n0", "n1"]), (["f3"], ["n2", "n3", "n4"]), (["f4", "f5"], ["n5"]), (["f0"], ["n4", "n5"]), (["f5"], ["n0"])]


def many(S, p):
    """Six facts and six footnotes with eleven arcs, inline or in two links of an instance."""
    facts, notes = ["f%d" % i for i in range(6)], ["n%d" % i for i in range(6)]
    kinds = dict([(f, "fact") for f in facts] + [(n, "footnote") for n in notes])
    text = S.str("text", "a &<", 0, 1)
    at = S.pick("at", p["at"])
    content = {n: n + " text" * 30 + (text if i == at else "") for i, n in enumerate(notes)}
    arcs, rels = [], []
    for k, (froms, tos) in enumerate(CHUNKS):
        o = S.pick("order", p["orders"]) if k == 3 else "%d" % (5 - k)
        role = ["http://r/a", "http://r/b"][k % 2 if k < 4 else 1]
        arcs += [(f, t, float(o), DEFAULT["arc"], role) for t in tos for f in froms]
        rels.append((froms, tos, o, role))
    if S.pick("inline", [1, 0]):
        xs = [el("ix:relationship", {"fromRefs": " ".join(a), "toRefs": "\n ".join(b), "order": o, "linkRole": r}) for a, b, o, r in rels]
        body = [fact_el(f) for f in facts] + [el("ix:footnote", {"id": n, "xml:lang": ["en", "fr", "de-CH"][i % 3]}, text=content[n]) for i, n in enumerate(notes)]
        f = open_inline(body, xs)
        S.check([c for c in codes(f) if c != HEADER] == [], "no error for relationships between what there is")
        got = check_networks(S, f, arcs, kinds)
        S.cover("inline")
    else:
        links = []
        for role in ("http://r/a", "http://r/b"):
            parts = [el("link:loc", {"xlink:type": "locator", "xlink:label": "L" + x, "xlink:href": "#" + x}) for x in facts if any(x in a and r == role for a, b, o, r in rels)]
            parts += [el("link:footnote", {"xlink:type": "resource", "xlink:label": n, "xml:lang": ["en", "fr", "de-CH"][i % 3], "xlink:role": DEFAULT["role"]}, text=content[n]) for i, n in enumerate(notes) if any(n in b and r == role for a, b, o, r in rels)]
            parts += [el("link:footnoteArc", {"xlink:type": "arc", "xlink:from": "L" + a, "xlink:to": b, "order": "%g" % o, "xlink:arcrole": r}) for a, b, o, r, l in arcs if l == role]
            links.append(el("link:footnoteLink", {"xlink:type": "extended", "xlink:role": role}, *parts))
        inst = instance(context_el("c1"), *([el("ex:A", {"id": x, "contextRef": "c1"}, text="1") for x in facts] + links))
        f = open_xml([("i.xml", inst), ("ex.xsd", schema(NS["ex"], ("ex_A", "A", {"type": "xbrli:stringItemType"})))])
        S.check(codes(f) == [], "no error for good footnote links")
        got = [n for n in f.get_all_physical_networks() if isinstance(n, FootnoteNetwork)]
        S.check(len(got) == 2, "there is one network of footnotes for each link role and arc role")
        pairs = [(r.get_fact()._get_id(), c.get_resource().get_label(), c.get_order(), c.get_arc_role(), n.get_link_role()) for n in got for r in n.get_roots() for c in r.get_children()]
        S.check(sorted(pairs) == sorted(arcs), "footnotes are below exactly the facts that arcs attach them to")
        for n in got:
            for r in n.get_roots():
                os = [c.get_order() for c in r.get_children()]
                S.check(os == sorted(os), "footnotes are in the order of their arcs")
        S.cover("xml")
    seen = resources(got)
    for i, n in enumerate(notes):
        S.check(seen[n].get_language() == ["en", "fr", "de-CH"][i % 3], "a footnote has its own language")
        S.check_eq(plain(seen[n].get_content()), content[n], "the content of a footnote is its text")


def inline_text(S, p):
    """Text, language and role of a footnote, wherever it is."""
    text = S.str("text", "a &<\u00e9\n", 0, p["n"])
    more = S.str("more", "b &", 0, p["m"])
    role = S.pick("role", ROLES)
    lang, outer = S.pick("lang", [None] + LANGS), S.pick("outer", LANGS)
    title = S.pick("title", [None, "t"])
    shape = S.pick("shape", ["text", "continued", "excluded", "bold"])
    at = {"id": "n", "xml:lang": lang, "footnoteRole": role, "title": title}
    extra = []
    if shape == "continued":
        at["continuedAt"] = "k"
        extra = [el("ix:continuation", {"id": "m"}, text="3"), el("ix:continuation", {"id": "k", "continuedAt": "l"}, text=more), el("ix:continuation", {"id": "l", "continuedAt": "m"}, text="2")]
        note, want = el("ix:footnote", at, text=text), text + more + "23"
    elif shape == "excluded":
        note, want = el("ix:footnote", at, el("ix:exclude", None, text="x", tail=more), text=text), text + more
    else:
        note, want = el("ix:footnote", at, text=text, tail="tail"), text
    rel = el("ix:relationship", {"fromRefs": "f0", "toRefs": "n"})
    body = [fact_el("f0"), el("xhtml:div", {"xml:lang": outer}, note)] + extra
    if shape == "bold":
        note.append(el("xhtml:b", None, text=more))
    f = open_inline(body, [rel])
    S.check([c for c in codes(f) if c != HEADER] == [], "no error for good footnotes")
    got = check_networks(S, f, [("f0", "n", 1.0, DEFAULT["arc"], DEFAULT["link"])], {"f0": "fact", "n": "footnote"})
    r = resources(got)["n"]
    S.check(isinstance(r, BrelFootnote), "footnotes are footnotes")
    content = r.get_content()
    if shape == "bold":
        S.check_eq(plain(content[: content.index("<b")] + "</x>"), plain("<x>" + marked(text) + "</x>"), "the content of a footnote is its mark-up")
        S.check(marked(more) in content, "the content of a footnote is its mark-up")
    else:
        S.check_eq(plain(content), want, "the content of a footnote is its text")
    S.check(r.get_language() == (lang or outer), "a footnote has its own language, or that of what it is in")
    S.check(r.get_role() == (role or DEFAULT["role"]), "a footnote has its role")
    S.check(r.get_title() == title, "a footnote has its title")
    S.check(r.get_id() == "n", "a footnote has its id")
    S.cover(shape)


def marked(text):
    out = ""
    for ch in text:
        out = out + ("&amp;" if ch == "&" else "&lt;" if ch == "<" else ch)
    return out


def inline_broken(S, p):
    """A relationship with a mistake: it is reported, and the others remain."""
    v = S.str("v", "a0", 0, p["n"])
    kind = S.pick("kind", BROKEN)
    at = {"fromRefs": "f0", "toRefs": "n0"}
    keep, want = True, []
    if kind == "from":
        at["fromRefs"] = "x" + v
        keep, want = False, ["IXBRL_RELATIONSHIP_INVALID_FACT_ID_IN_FROMREFS"]
    elif kind == "from note":
        at["fromRefs"] = "n1"
        keep, want = False, ["IXBRL_RELATIONSHIP_INVALID_FACT_ID_IN_FROMREFS"]
    elif kind == "to":
        at["toRefs"] = "x" + v
        keep, want = False, ["IXBRL_RELATIONSHIP_INVALID_FACT_OR_FOOTNOTE_ID_IN_TOREFS"]
    elif kind == "part":
        at["toRefs"] = "n0 x" + v
        want = ["IXBRL_RELATIONSHIP_INVALID_FACT_OR_FOOTNOTE_ID_IN_TOREFS", "IXBRL_RELATIONSHIP_MIXED_FACT_AND_FOOTNOTES_IN_TOREFS"]
    elif kind == "no from":
        at["fromRefs"] = S.pick("none", [None, ""])
        keep, want = False, ["IXBRL_RELATIONSHIP_WITHOUT_FROMREFS"]
    elif kind == "no to":
        at["toRefs"] = S.pick("none", [None, ""])
        keep, want = False, ["IXBRL_RELATIONSHIP_WITHOUT_TOREFS"]
    elif kind == "order":
        at["order"] = "x" + v
        want = ["IXBRL_RELATIONSHIP_INVALID_ORDER"]
    rel = el("ix:relationship", at)
    good = el("ix:relationship", {"fromRefs": "f1", "toRefs": "n1", "order": "2"})
    first = S.pick("first", [0, 1])
    body = [fact_el("f0"), fact_el("f1")] + [el("ix:footnote", {"id": n, "xml:lang": "en"}, text=n) for n in ("n0", "n1")]
    f = open_inline(body, [rel, good] if first else [good, rel])
    got = [c for c in codes(f) if c != HEADER]
    S.check(all(c in got for c in want) and (got == want or kind == "part"), "a mistake in a relationship is reported")
    arcs = [("f1", "n1", 2.0, DEFAULT["arc"], DEFAULT["link"])]
    if keep:
        arcs.insert(0 if first else 1, ("f0", "n0", 1.0, DEFAULT["arc"], DEFAULT["link"]))
    check_networks(S, f, arcs, {"f0": "fact", "f1": "fact", "n0": "footnote", "n1": "footnote"})
    S.cover(kind)


BROKEN = ["from", "from note", "to", "part", "no from", "no to", "order"]


def inline_notes(S, p):
    """Footnotes with a mistake."""
    v = S.str("v", "a0", 0, p["n"])
    kind = S.pick("kind", ["language", "id", "empty id", "good"])
    note = el("ix:footnote", {"id": {"id": None, "empty id": ""}.get(kind, "n0"), "xml:lang": None if kind == "language" else "de"}, text=v)
    other = el("ix:footnote", {"id": "n1", "xml:lang": "fr"}, text="o")
    rels = [el("ix:relationship", {"fromRefs": "f0", "toRefs": "n1"})]
    arcs = [("f0", "n1", 1.0, DEFAULT["arc"], DEFAULT["link"])]
    if kind in ("language", "good"):
        rels.append(el("ix:relationship", {"fromRefs": "f1", "toRefs": "n0"}))
        arcs.append(("f1", "n0", 1.0, DEFAULT["arc"], DEFAULT["link"]))
    f = open_inline([note, fact_el("f0"), fact_el("f1"), other], rels)
    want = {"language": ["IXBRL_FOOTNOTE_WITHOUT_LANGUAGE"], "id": ["IXBRL_FOOTNOTE_WITHOUT_ID"], "empty id": ["IXBRL_FOOTNOTE_WITHOUT_ID"], "good": []}[kind]
    S.check([c for c in codes(f) if c != HEADER] == want, "a mistake of a footnote is reported")
    got = check_networks(S, f, arcs, {"f0": "fact", "f1": "fact", "n0": "footnote", "n1": "footnote"})
    rs = resources(got)
    S.check(rs["n1"].get_language() == "fr", "a footnote has its language")
    if kind in ("language", "good"):
        S.check(rs["n0"].get_language() == ("en" if kind == "language" else "de"), "a footnote without a language is taken as English")
        S.check_eq(plain(rs["n0"].get_content()), v, "the content of a footnote is its text")
    S.cover(kind)


# XML instances -------------------------------------------------------------


def xml_link(S, p):
    """Footnote links of XML instances: locators of facts and footnotes that share labels."""
    facts = ["f%d" % i for i in range(p["facts"])]
    notes = p["notes"]
    linkrole = S.pick("linkrole", ["http://r/a", DEFAULT["link"]])
    labels = ["A"] + [S.pick("label%d" % i, ["A", "B"]) for i in range(1, p["facts"])]
    docs = S.pick("doc", ["", "i.xml"])
    kids, want = [], []
    locs = [el("link:loc", {"xlink:type": "locator", "xlink:label": labels[i], "xlink:href": docs + "#" + facts[i]}) for i in range(p["facts"])]
    outer = S.pick("outer", LANGS[: p["outer"]])
    langs, texts, rs = [], [], []
    for i in range(notes):
        lang = S.pick("lang%d" % i, p["langs"])
        text = S.str("text%d" % i, "a &<\u00e9", 0, p["n"])
        langs.append(lang or outer)
        texts.append(text)
        rs.append(el("link:footnote", {"xlink:type": "resource", "xlink:label": "n%d" % i, "xml:lang": lang, "xlink:role": DEFAULT["role"]}, text=text))
    arcs, els = [], []
    for k in range(p["arcs"]):
        frm = S.pick("from%d" % k, ["A", "B"])
        to = S.pick("to%d" % k, ["n%d" % i for i in range(notes)])
        order = S.pick("order%d" % k, p["orders"])
        role = S.pick("arcrole%d" % k, p["arcroles"])
        S.assume(not any(e == (frm, to, role) for e in els))
        els.append((frm, to, role))
        kids.append(el("link:footnoteArc", {"xlink:type": "arc", "xlink:from": frm, "xlink:to": to, "order": order, "xlink:arcrole": role}))
        for i in range(p["facts"]):
            if labels[i] == frm:
                arcs.append((facts[i], to, 1.0 if order is None else float(order), role, linkrole))
    parts = S.pick("parts", [0, 1])
    body = (locs + rs + kids) if parts else (kids + rs + locs)
    link = el("link:footnoteLink", {"xlink:type": "extended", "xlink:role": linkrole, "xml:lang": outer}, *body)
    inst = instance(context_el("c1"), *([el("ex:A", {"id": x, "contextRef": "c1"}, text="1") for x in facts] + [link]))
    f = open_xml([("i.xml", inst), ("ex.xsd", schema(NS["ex"], ("ex_A", "A", {"type": "xbrli:stringItemType"})))])
    S.check(codes(f) == [], "no error for good footnote links")
    kinds = dict([(x, "fact") for x in facts] + [("n%d" % i, "footnote") for i in range(notes)])
    got = [n for n in f.get_all_physical_networks() if isinstance(n, FootnoteNetwork)]
    # what nothing is attached to stands alone
    attached = [x for x in got if x.get_roots()[0].get_arc_role() in p["arcroles"]]
    roots = []
    pairs = []
    for n in attached:
        S.check(n.get_link_role() == linkrole, "a network of footnotes has the link role of its link")
        for r in n.get_roots():
            for c in r.get_children():
                pairs.append((r.get_fact()._get_id(), c.get_resource().get_label(), c.get_order(), n.get_roots()[0].get_arc_role(), linkrole))
                S.check(c.get_arc_role() == n.get_roots()[0].get_arc_role(), "nodes have the roles of their arcs")
            os = [c.get_order() for c in r.get_children()]
            S.check(os == sorted(os), "footnotes are in the order of their arcs")
    S.check(sorted(pairs) == sorted(arcs), "footnotes are below exactly the facts that arcs attach them to")
    notes_seen = resources(attached)
    for i in range(notes):
        n = "n%d" % i
        if any(a[1] == n for a in arcs):
            r = notes_seen[n]
            S.check_eq(r.get_content(), texts[i], "the content of a footnote is its text")
            S.check(r.get_language() == langs[i], "a footnote has its own language, or that of what it is in")
            S.check(r.get_role() == DEFAULT["role"], "a footnote has its role")
    S.cover("attached" if arcs else "alone")


def xml_target(S, p):
    """Fact or element of the taxonomy: a locator leads to the document that it names."""
    a = S.str("a", "ab", 1)
    ident = S.pick("id", ["f", "ex_A", "ex_B"])
    doc = S.pick("doc", ["", "i.xml", "ex.xsd"])
    inst_id = S.pick("inst", ["f", "ex_A"])
    embedded = S.pick("embedded", [0, 1]) if doc == "" else 0
    link = el(
        "link:footnoteLink",
        {"xlink:type": "extended", "xlink:role": "http://r"},
        el("link:loc", {"xlink:type": "locator", "xlink:label": "l" + a, "xlink:href": doc + "#" + ident}),
        el("link:footnote", {"xlink:type": "resource", "xlink:label": "n", "xml:lang": "en"}, text="t"),
        el("link:footnoteArc", {"xlink:type": "arc", "xlink:from": "l" + a, "xlink:to": "n", "xlink:arcrole": DEFAULT["arc"]}),
    )
    inst = instance(context_el("c1"), el("ex:A", {"id": inst_id, "contextRef": "c1"}, text="1"))
    tax = schema(NS["ex"], ("ex_A", "A", {"type": "xbrli:stringItemType"}), ("ex_B", "B"))
    # a link in a linkbase in the taxonomy may refer to the taxonomy without its name
    (tax if embedded else inst).append(link)
    f = open_xml([("i.xml", inst), ("ex.xsd", tax)])
    if embedded:
        S.cover("embedded")
    if doc == "ex.xsd" or embedded:
        want = ("element", ident) if ident != "f" else None
    else:
        want = ("fact", ident) if ident == inst_id else None
    ns = [n for n in f.get_all_physical_networks() if isinstance(n, FootnoteNetwork) and n.get_roots()[0].get_children()]
    if want is None:
        S.cover("nothing")
        # a locator whose document does not hold the id may be resolved leniently
        return
    S.check(codes(f) == [], "no error")
    S.check(len(ns) == 1 and len(ns[0].get_roots()) == 1 and thing(ns[0].get_roots()[0]) == want, "a locator leads to the document that it names")
    S.cover(want[0])


ORD = [None, "1", "2.5", "0", "-1"]
ARC = [None, CHAIN]
HARNESSES = [
    Harness(many, quick=[dict(at=[0, 5], orders=["0", "2.5", "9"])], thorough=[dict(at=list(range(6)), orders=["0", "2.5", "4", "9"], _split={"at": 6, "inline": 2})], covers=["inline", "xml"], bounds="six facts and six footnotes of 150 characters with 13 arcs in two roles, inline or in links of an instance; one order and one character free"),
    Harness(inlined, name="inline",
        quick=[dict(facts=2, notes=2, rels=2, orders=[None, "2", "0"], arcroles=[None], linkroles=[None]), dict(facts=2, notes=1, rels=2, orders=[None], arcroles=ARC, linkroles=ROLES[:2]), dict(facts=3, notes=1, rels=2, only=False, orders=[None, "0.5"], arcroles=[CHAIN], linkroles=["http://r/a"]), dict(facts=3, notes=0, rels=2, only=False, orders=["1"], arcroles=[CHAIN, "http://a/b"], linkroles=["http://r/a"])],
        thorough=[dict(facts=2, notes=2, rels=2, orders=ORD[1:4], arcroles=[None], linkroles=[None], _split={"xf0": 2, "xt0": 2, "order0": 3}), dict(facts=2, notes=2, rels=2, orders=[None], arcroles=ARC, linkroles=ROLES[:2], _split={"xf0": 2, "xt0": 2}), dict(facts=2, notes=2, rels=3, orders=[None], arcroles=[None], linkroles=[None], _split={"xf0": 2, "xt0": 2}), dict(facts=3, notes=2, rels=2, only=False, orders=[None, "-1"], arcroles=[CHAIN], linkroles=["http://r/a"], _split={"xf0": 3, "xf1": 3})],
        covers=["networks"], bounds="%(facts)d facts, %(notes)d footnotes, %(rels)d relationships of one or two items on each side, orders %(orders)s", split={"late": 2, "xf0": 2}),
    Harness(inline_text, quick=[dict(n=1, m=1)], thorough=[dict(n=3, m=1, _split={"shape": 4, "role": 3})], covers=["text", "continued", "excluded", "bold"], bounds="text of up to %(n)d + %(m)d characters; three roles, own or inherited language", split={"shape": 4}),
    Harness(inline_broken, quick=[dict(n=1)], thorough=[dict(n=3)], covers=BROKEN, bounds="seven kinds of mistakes, ids with %(n)d free characters"),
    Harness(inline_notes, quick=[dict(n=1)], thorough=[dict(n=4)], covers=["language", "id", "empty id", "good"], bounds="footnotes without id or language, text of up to %(n)d characters"),
    Harness(xml_link, quick=[dict(facts=2, notes=2, arcs=2, n=0, langs=["en"], outer=1, orders=[None, "0"], arcroles=[DEFAULT["arc"]]), dict(facts=2, notes=1, arcs=2, n=0, langs=["en"], outer=1, orders=[None, "2"], arcroles=[DEFAULT["arc"], CHAIN]), dict(facts=1, notes=2, arcs=1, n=1, langs=[None] + LANGS[:1], outer=2, orders=[None], arcroles=[DEFAULT["arc"]], _split={"from0": 2})], thorough=[dict(facts=3, notes=2, arcs=2, n=0, langs=["en"], outer=1, orders=ORD[1:4], arcroles=[DEFAULT["arc"]], _split={"from0": 2, "to0": 2, "order0": 3}), dict(facts=2, notes=2, arcs=1, n=2, langs=[None] + LANGS, outer=2, orders=[None], arcroles=[DEFAULT["arc"]], _split={"from0": 2, "to0": 2})], covers=["attached"], bounds="%(facts)d facts, %(notes)d footnotes, %(arcs)d arcs, shared labels", split={"from0": 2, "to0": 2, "order0": 2}),
    Harness(xml_target, quick=[{}], covers=["fact", "element", "nothing", "embedded"], bounds="ids of facts that may be those of elements; three forms of links, in the instance or in the taxonomy"),
]
