"""P20: prefixes are only spelling."""
from harness.lib import *
from brel.networks import CalculationNetworkNode, DefinitionNetworkNode, FootnoteNetwork, LabelNetwork, PresentationNetworkNode, ReferenceNetwork
from brel.reportelements import Concept
from harness.p19 import thing
from sx.api import Harness

PROPERTY = "P20"
ROLE = "http://r/1"
STANDARD = "http://www.xbrl.org/2003/role/"
# attributes and elements that hold qualified names
NAMES = ("dimension", "type", "substitutionGroup", "format")
TEXTS = ("measure", "explicitMember", "usedOn")


# documents with other prefixes ----------------------------------------------


def holds_name(e, attribute):
    if attribute == "name":
        return e.tag in (q("ix:nonFraction"), q("ix:nonNumeric"))
    return attribute in NAMES


def prefixes_of(e):
    """The prefixes (as in NS) that an element needs."""
    inverse = {v: k for k, v in NS.items()}
    out = [inverse[etree.QName(e.tag).namespace]]
    for k, v in e.attrib.items():
        if k[0] == "{":
            out.append(inverse[k[1 : k.index("}")]])
        elif holds_name(e, k) and ":" in v:
            out.append(v[: v.index(":")])
    if etree.QName(e.tag).localname in TEXTS and e.text:
        out.append(e.text[: e.text.index(":")])
    return [x for i, x in enumerate(out) if x not in out[:i]]


def written(name, m):
    """A qualified name in another spelling."""
    prefix, local = name.split(":", 1)
    return m[prefix] + ":" + local if m[prefix] else local


def spell(e, m, local, parent=None):
    """A copy of e whose namespaces have the prefixes m says, bound at the root or where they are needed."""
    need = prefixes_of(e)
    if local:
        m, taken = dict(m), []
        for p in need:
            while m[p] in taken:
                m[p] = (m[p] or "") + "z"
            taken.append(m[p])
        ns = {m[p]: NS[p] for p in need if p != "xml"}
    else:
        ns = {m[p]: NS[p] for p in m if p != "xml"}
    if parent is None:
        new = etree.Element(e.tag, nsmap=ns)
    else:
        new = etree.SubElement(parent, e.tag, nsmap=ns if local else None)
    for k, v in e.attrib.items():
        new.set(k, written(v, m) if holds_name(e, k) and ":" in v else v)
    new.text, new.tail = e.text, e.tail
    if etree.QName(e.tag).localname in TEXTS and e.text:
        new.text = written(e.text, m)
    for c in e:
        spell(c, m, local, new)
    return new


# what a filing says ----------------------------------------------------------


def name_of(x):
    return x.get_name().clark_notation()


def node(n):
    what = thing(n) if n.points_to() != "report element" else ("element", name_of(n.get_report_element()))
    more = []
    if isinstance(n, CalculationNetworkNode):
        more = [n.get_weight()]
    if isinstance(n, PresentationNetworkNode):
        more = [n.get_preferred_label_role()]
    return [list(what), n.get_arc_role(), n.get_link_role(), n.get_order(), more, [node(c) for c in n.get_children()]]


def dimension(c):
    v = c.get_value()
    return [name_of(c.get_dimension()), v if isinstance(v, str) else name_of(v)]


def fact(f):
    c = f.get_context()
    unit, dims = f.get_unit(), []
    for a in c.get_aspects():
        if not a.is_core():
            dims.append(dimension(c.get_characteristic(a)))
    measures = None
    if unit is not None:
        measures = [[x.clark_notation() for x in unit.get_numerators()], [x.clark_notation() for x in unit.get_denominators()]]
    return [name_of(f.get_concept().get_value()) if hasattr(f.get_concept(), "get_value") else name_of(f.get_concept()), f.get_id(), f.get_value_as_str(), f.get_decimals(), f.get_precision(), str(f.get_period().get_value()), str(c.get_entity()), measures, sorted(dims)]


def element(e):
    more = [e.get_data_type(), e.get_period_type(), e.get_balance_type(), e.is_nillable()] if isinstance(e, Concept) else []
    if more:
        more[0] = more[0][more[0].index(":") + 1 :] if ":" in more[0] else more[0]
    return [name_of(e), type(e).__name__, e.get_id(), more, [[x.get_label(), x.get_language(), x.get_role()] for x in e.get_labels()]]


def network(n):
    return [type(n).__name__, n.is_physical(), n.get_link_role(), [node(r) for r in n.get_roots()]]


def component(c):
    return [c.get_URI(), c.get_info(), [type(n).__name__ for n in c.get_networks()]]


def networks(f):
    out = list(f.get_all_physical_networks())
    for c in f.get_all_components():
        out += c.get_networks()
    return out


def said(f):
    return {
        "facts": [fact(x) for x in f.get_all_facts()],
        "elements": [element(x) for x in f.get_all_report_elements()],
        "networks": [network(x) for x in networks(f) if not isinstance(x, (LabelNetwork, ReferenceNetwork))],
        "components": [component(x) for x in f.get_all_components()],
        "codes": codes(f),
    }


def same(S, a, b):
    for k in a:
        S.check_eq(b[k], a[k], "whatever prefixes the documents have, a filing has the same " + k)


# the documents ---------------------------------------------------------------


def link(tag, *children):
    return el("link:" + tag, {"xlink:type": "extended", "xlink:role": ROLE}, *children)


def loc(name):
    return el("link:loc", {"xlink:type": "locator", "xlink:label": "l" + name, "xlink:href": "ex.xsd#" + name})


def arc(tag, role, a, b, **more):
    at = {"xlink:type": "arc", "xlink:arcrole": role, "xlink:from": a, "xlink:to": b}
    at.update(more)
    return el("link:" + tag, at)


def taxonomy(target, letter):
    x = letter
    role = el("link:roleType", {"roleURI": ROLE, "id": "r"}, el("link:definition", None, text="d"), *[el("link:usedOn", None, text="link:%sLink" % k) for k in ("presentation", "calculation", "definition")])
    return schema(
        target,
        (x + "_A", "A"),
        (x + "_B", "B", {"xbrli:balance": "debit"}),
        (x + "_S", "S", {"type": "xbrli:stringItemType"}),
        (x + "_D", "D", {"substitutionGroup": "xbrldt:dimensionItem", "abstract": "true"}),
        (x + "_M", "M", {"type": "xbrli:domainItemType", "abstract": "true"}),
        (x + "_T", "T", {"substitutionGroup": "xbrldt:dimensionItem", "abstract": "true", "xbrldt:typedDomainRef": "#" + x + "_S"}),
        extra=[el("xs:annotation", None, el("xs:appinfo", None, role))] if letter == "ex" else [],
    )


def linkbase():
    PC = "http://www.xbrl.org/2003/arcrole/parent-child"
    SI = "http://www.xbrl.org/2003/arcrole/summation-item"
    DM = "http://xbrl.org/int/dim/arcrole/domain-member"
    CL = "http://www.xbrl.org/2003/arcrole/concept-label"
    CR = "http://www.xbrl.org/2003/arcrole/concept-reference"
    return el(
        "link:linkbase",
        None,
        link("presentationLink", loc("ex_A"), loc("ex_B"), arc("presentationArc", PC, "lex_A", "lex_B", order="2", preferredLabel=STANDARD + "label")),
        link("calculationLink", loc("ex_A"), loc("ex_B"), arc("calculationArc", SI, "lex_A", "lex_B", order="1", weight="-1")),
        link("definitionLink", loc("ex_M"), loc("ex_A"), arc("definitionArc", DM, "lex_M", "lex_A", order="1")),
        link("labelLink", loc("ex_A"), el("link:label", {"xlink:type": "resource", "xlink:label": "t", "xlink:role": STANDARD + "label", "xml:lang": "de"}, text="L"), arc("labelArc", CL, "lex_A", "t")),
        link("referenceLink", loc("ex_A"), el("link:reference", {"xlink:type": "resource", "xlink:label": "t", "xlink:role": STANDARD + "reference"}), arc("referenceArc", CR, "lex_A", "t")),
    )


def numbers(S, p):
    return S.str("a", "0123456789", 1, p["n"]), S.str("b", "0123456789", 1, p["n"]), S.str("t", "xy", 0, p["n"])


def measures(id):
    m = lambda x: el("xbrli:measure", None, text=x)
    return el("xbrli:unit", {"id": id}, el("xbrli:divide", None, el("xbrli:unitNumerator", None, m("iso4217:USD")), el("xbrli:unitDenominator", None, m("ex:w"), m("ey:w"))))


def contexts(t):
    typed = el("xbrldi:typedMember", {"dimension": "ey:T"}, el("ey:S", None, text="v" + t))
    explicit = lambda d, m: el("xbrldi:explicitMember", {"dimension": d}, text=m)
    return [
        context_el("c1", segment=[explicit("ex:D", "ex:M"), typed]),
        context_el("c2", duration("2020-01-01", "2020-12-31"), segment=[explicit("ey:D", "ey:M")]),
        context_el("c3", scenario=[explicit("ex:D", "ey:M"), explicit("ey:D", "ex:M")]),
    ]


def taxonomies():
    return [("ex.xsd", taxonomy(NS["ex"], "ex")), ("ey.xsd", taxonomy(NS["ey"], "ey")), ("l.xml", linkbase())]


def xml_documents(S, p):
    a, b, t = numbers(S, p)
    bad = S.pick("bad", [None, "ey:Q"]) if p.get("bad") else None
    note = link(
        "footnoteLink",
        el("link:loc", {"xlink:type": "locator", "xlink:label": "f", "xlink:href": "#f1"}),
        el("link:footnote", {"xlink:type": "resource", "xlink:label": "n", "xlink:role": STANDARD + "footnote", "xml:lang": "en"}, text="note"),
        arc("footnoteArc", "http://www.xbrl.org/2003/arcrole/fact-footnote", "f", "n"),
    )
    facts = [
        el("ex:A", {"id": "f1", "contextRef": "c1", "unitRef": "u1", "decimals": "0"}, text=a),
        el(bad or "ey:A", {"id": "f2", "contextRef": "c2", "unitRef": "u2", "decimals": "INF"}, text=b),
        el("ey:S", {"contextRef": "c2", "xsi:nil": "true"}),
        el("ex:B", {"contextRef": "c3", "unitRef": "u1"}, text=b),
    ]
    inst = instance(*contexts(t), measures("u1"), unit_el("u2"), *(facts + [note]))
    return [("i.xml", inst)] + taxonomies()


def inline_documents(S, p):
    a, b, t = numbers(S, p)
    form = S.pick("format", ["ixt:num-dot-decimal", "ixt:numdotdecimal", None])
    nested = el("ix:nonFraction", {"id": "f2", "name": "ey:A", "contextRef": "c2", "unitRef": "u1", "decimals": "INF", "scale": "2", "sign": "-", "format": form}, text="1" + b)
    body = [
        el("ix:nonFraction", {"id": "f1", "name": "ex:A", "contextRef": "c1", "unitRef": "u1", "decimals": "0", "scale": "2", "format": form}, nested),
        el("ix:nonNumeric", {"id": "f3", "name": "ey:S", "contextRef": "c3", "continuedAt": "k"}, el("ix:exclude", None, text="x", tail="y"), text="t" + t),
        el("ix:continuation", {"id": "k"}, text="z" + t),
        el("ix:nonNumeric", {"id": "f4", "name": "ex:S", "contextRef": "c2", "format": "ixt:date-day-month-year"}, text="1" + a + ".2.2020"),
        el("ix:nonNumeric", {"id": "f5", "name": "ex:S", "contextRef": "c2", "format": "ixt:booleantrue"}, text="t" + t),
        el("ix:footnote", {"id": "n", "xml:lang": "en"}, text="note"),
    ]
    hidden = [el("ix:nonFraction", {"id": "f6", "name": "ex:B", "contextRef": "c3", "unitRef": "u2", "xsi:nil": "true"})]
    more = [el("ix:relationship", {"fromRefs": "f1", "toRefs": "n", "order": "2"})]
    doc = inline([el("xhtml:p", None, *body)], contexts(t) + [measures("u1"), unit_el("u2")] + more, hidden)
    return [("d.htm", doc)] + taxonomies()


XML = ["xbrli", "link", "xlink", "xs", "xsi", "xbrldi", "xbrldt", "iso4217", "ex", "ey"]
INLINE = ["ix", "ixt", "xhtml"]


def spelling(S, spaces):
    """Another choice of prefixes."""
    m = {x: x for x in spaces}
    m["xml"] = "xml"
    if "xhtml" in m:
        m["xhtml"] = None
    x = S.pick("namespace", spaces)
    kind = S.pick("kind", KINDS)
    S.cover(kind)
    if kind == "other":
        m[x] = "p"
    elif kind == "default":
        if "xhtml" in m:
            m["xhtml"] = "h"
        m[x] = None
    elif kind == "exchanged":
        y = spaces[(spaces.index(x) + 1) % len(spaces)]
        m[x], m[y] = m[y], m[x]
    else:
        for y in spaces:
            m[y] = "n%d" % spaces.index(y) if kind == "all" else "p"
        S.assume(x == spaces[0])
    return m, kind == "same"


KINDS = ["other", "default", "exchanged", "all", "same"]


def respelled(S, p, docs, spaces):
    m, local = spelling(S, spaces)
    if not local:
        local = S.pick("local", [False, True])
    which = S.pick("which", p["which"])
    out = []
    for i, (uri, root) in enumerate(docs):
        plain = {x: x for x in spaces}
        plain["xml"] = "xml"
        if "xhtml" in plain:
            plain["xhtml"] = None
        mine = which is None or i == which
        # both are copies, so that they differ in spelling only
        out.append((uri, spell(root, m if mine else plain, local and mine), spell(root, plain, False)))
    return out


def prefixes(S, p):
    """XML instances, schemas and linkbases with other prefixes."""
    docs = respelled(S, p, xml_documents(S, p), XML)
    a = said(open_xml([(u, plain) for u, new, plain in docs]))
    b = said(open_xml([(u, new) for u, new, plain in docs]))
    S.check(len(a["facts"]) >= 3 and len(a["networks"]) >= 3, "the facts and networks are there")
    same(S, a, b)


def prefixes_inline(S, p):
    """Inline documents with other prefixes."""
    docs = respelled(S, p, inline_documents(S, p), INLINE + XML)
    a = said(open_xhtml([(u, plain) for u, new, plain in docs]))
    b = said(open_xhtml([(u, new) for u, new, plain in docs]))
    S.check(len(a["facts"]) == 6 and len(a["networks"]) >= 3, "the facts and networks are there")
    same(S, a, b)


HARNESSES = [
    Harness(prefixes, name="xml", quick=[dict(n=1, which=[None, 0]), dict(n=1, which=[1, 3])], thorough=[dict(n=2, bad=True, which=[None, 0, 1, 2, 3])], covers=KINDS, bounds="an XML instance with facts, contexts, units, dimensions and footnotes, two schemas and a linkbase of five link kinds; 5 ways to spell 10 namespaces, at the root or where needed, in all documents or one; values of up to 1 (2) free characters", split={"kind": 5}),
    Harness(prefixes_inline, name="inline", quick=[dict(n=1, which=[None, 0])], thorough=[dict(n=2, which=[None, 0, 1, 3])], covers=KINDS, bounds="an inline document with nested, transformed, continued, hidden and footnoted facts, two schemas and a linkbase; 5 ways to spell 13 namespaces, at the root or where needed, in all documents or one; values of up to 1 (2) free characters", split={"kind": 5}),
]
