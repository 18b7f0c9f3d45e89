"""P25: what a filing says depends on its documents alone."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

from harness.lib import *
from harness import p21, p24
from sx import env, order
from sx.api import Harness

PROPERTY = "P25"

HOME = os.environ["HOME"]


def node(n, depth=0):
    """A node with everything below it, to a depth that covers the networks here."""
    kind = n.points_to()
    what = str(n.get_report_element().get_name()) if kind == "report element" else n.get_fact().get_id() if kind == "fact" else str(n.get_resource().get_content())
    more = []
    if hasattr(n, "get_weight"):
        more.append(n.get_weight())
    if hasattr(n, "get_preferred_label_role"):
        more.append(n.get_preferred_label_role())
    return [kind, what, n.get_arc_role(), str(n.get_arc_name()), n.get_order(), n.get_link_role(), more, [node(c, depth + 1) for c in n.get_children()] if depth < 4 else "..."]


def network(n):
    return [type(n).__name__, n.get_link_role(), str(n.get_link_name()), n.is_physical(), n.get_arc_roles(), str(n.get_arc_name()), [node(r) for r in n.get_roots()], len(n.get_all_nodes())]


def fact(x):
    c = x.get_context()
    return [x.get_id(), x.get_value_as_str(), x.get_decimals(), x.get_precision(), x.is_core(), [[a.get_name(), [[l.get_content(), l.get_language()] for l in a.get_labels()], c.get_characteristic_as_str(a)] for a in c.get_aspects()], units(x.get_unit())]


def units(u):
    return None if u is None else [[m.clark_notation() for m in u.get_numerators()], [m.clark_notation() for m in u.get_denominators()], u.get_name()]


def element(e):
    d = [type(e).__name__, e.get_name().clark_notation(), str(e.get_name()), e.get_id(), [[l.get_content(), l.get_language(), l.get_role()] for l in e.get_labels()], e.select_main_label().get_content()]
    if hasattr(e, "get_data_type"):
        d += [e.get_period_type(), e.get_data_type(), e.get_balance_type(), e.is_nillable()]
    if hasattr(e, "is_explicit"):
        d.append(e.is_explicit())
    return d


def error(e):
    return [e.get_area(), e.get_numeric_code(), str(e.get_severity()), str(e.get_message())]


def component(c):
    return [c.get_URI(), c.get_info(), [network(n) for n in c.get_networks()]]


def said(f):
    """Everything a filing says."""
    return [
        [fact(x) for x in f.get_all_facts()],
        [element(e) for e in f.get_all_report_elements()],
        [component(c) for c in f.get_all_components()],
        [network(n) for n in f.get_all_physical_networks()],
        [error(e) for e in f.get_all_errors()],
        languages(f),
    ]


def outcome(fn, *a):
    """What fn(*a) gives, or how it fails."""
    try:
        return fn(*a)
    except Exception as e:
        return [type(e).__name__, str(e)]


def languages(f):
    return f.get_preferred_languages(None, True, False, False)


DIMENSION = {"abstract": "true", "substitutionGroup": "xbrldt:dimensionItem", "type": "xbrli:stringItemType"}
MEMBER = {"abstract": "true", "type": "nonnum:domainItemType"}
R = "http://example.com/role/"
ARC = {"presentation": "http://www.xbrl.org/2003/arcrole/parent-child", "calculation": "http://www.xbrl.org/2003/arcrole/summation-item", "label": "http://www.xbrl.org/2003/arcrole/concept-label", "definition": "http://xbrl.org/int/dim/arcrole/"}


def loc(label, i):
    return el("link:loc", {"xlink:type": "locator", "xlink:href": "ex.xsd#" + i, "xlink:label": label})


def arc(kind, a, b, role=None, **attrs):
    return el("link:%sArc" % kind, dict({"xlink:type": "arc", "xlink:from": a, "xlink:to": b, "xlink:arcrole": role or ARC[kind], "order": attrs.pop("order", "1")}, **attrs))


def link(kind, role, *kids):
    return el("link:%sLink" % kind, {"xlink:type": "extended", "xlink:role": role}, *kids)


def label_el(name, lang, text):
    return el("link:label", {"xlink:type": "resource", "xlink:label": name, "xlink:role": "http://www.xbrl.org/2003/role/label", "xml:lang": lang}, text=text)


DEFAULT = dict(value="1", ident="e", date="2020-12-31", measure="iso4217:USD", dim=None, type="xbrli:monetaryItemType", label="A", lang="en", info="info", arcs=0, weight="1", note=None, bad=None, prefix=0, fid="f", scale=None, format=None, text="t", balance=None)


def documents(d):
    """The documents of a filing: an instance and a taxonomy with linkbases, all with the same names and ids."""
    v = dict(DEFAULT, **d)
    typed = dict(DIMENSION)
    typed["xbrldt:typedDomainRef"] = "#ex_dom"
    tax = schema(
        NS["ex"],
        ("ex_A", "A", {"type": v["type"], "xbrli:balance": v["balance"]}),
        ("ex_B", "B", {"type": "xbrli:stringItemType"}),
        ("ex_D", "D", DIMENSION),
        ("ex_T", "T", typed),
        ("ex_M", "M", MEMBER),
        ("ex_N", "N", MEMBER),
        extra=[
            el("xs:element", {"id": "ex_dom", "name": "dom", "type": "xs:string"}),
            el("link:roleType", {"roleURI": R + "r", "id": "r"}, el("link:definition", None, text=v["info"]), *[el("link:usedOn", None, text="link:%sLink" % k) for k in ("presentation", "calculation", "definition")]),
        ],
    )
    pairs = [("A", "B"), ("B", "A"), ("A", "D")]
    a, b = pairs[v["arcs"]]
    lb = el(
        "link:linkbase",
        None,
        link("presentation", R + "r", loc("A", "ex_A"), loc("B", "ex_B"), loc("D", "ex_D"), arc("presentation", a, b)),
        link("calculation", R + "r", loc("A", "ex_A"), loc("B", "ex_B"), arc("calculation", "A", "B", weight=v["weight"])),
        link(
            "definition",
            R + "r",
            *[loc(x, "ex_" + x) for x in "DMNT"],
            arc("definition", "D", "M", ARC["definition"] + "dimension-domain"),
            arc("definition", "D", "N", ARC["definition"] + "dimension-default"),
            arc("definition", "M", "N", ARC["definition"] + "domain-member"),
        ),
        link("label", "http://www.xbrl.org/2003/role/link", loc("A", "ex_A"), label_el("l", v["lang"], v["label"]), label_el("l", "de", "deutsch"), label_el("l", "fr", "francais"), arc("label", "A", "l")),
        nsmap=nsmap("link", "xlink"),
    )
    dims = {
        None: [],
        "M": [el("xbrldi:explicitMember", {"dimension": "ex:D"}, text="ex:M")],
        "N": [el("xbrldi:explicitMember", {"dimension": "ex:D"}, text="ex:N")],
        "T": [el("xbrldi:typedMember", {"dimension": "ex:T"}, el("ex:dom", None, text="t"))],
        "TM": [el("xbrldi:typedMember", {"dimension": "ex:T"}, el("ex:dom", None, text="u")), el("xbrldi:explicitMember", {"dimension": "ex:D"}, text="ex:M")],
    }[v["dim"]]
    parts = [context_el("c", instant(v["date"]), ident=v["ident"], scenario=dims), unit_el("u", v["measure"])]
    facts = [("ex:A", {"id": v["fid"], "contextRef": "c", "unitRef": "u", "decimals": "0"}, v["value"]), ("ex:B", {"id": "g", "contextRef": "c"}, v["text"])]
    if v["bad"]:
        facts.append({"unit": ("ex:A", {"id": "h", "contextRef": "c", "unitRef": "nope"}, "1"), "context": ("ex:A", {"id": "h", "contextRef": "nope", "unitRef": "u"}, "1"), "concept": ("ex:Z", {"id": "h", "contextRef": "c"}, "1")}[v["bad"]])
    return v, parts, facts, [("ex.xsd", tax), ("lb.xml", lb)]


def xml_trees(d):
    v, parts, facts, docs = documents(d)
    inst = instance(*parts, *[el(t, a, text=x) for t, a, x in facts])
    if v["note"] is not None:
        inst.append(
            link(
                "footnote",
                "http://www.xbrl.org/2003/role/link",
                el("link:loc", {"xlink:type": "locator", "xlink:href": "#" + v["fid"], "xlink:label": "f"}),
                el("link:footnote", {"xlink:type": "resource", "xlink:label": "n", "xlink:role": "http://www.xbrl.org/2003/role/footnote", "xml:lang": v["lang"]}, text=v["note"]),
                el("link:footnoteArc", {"xlink:type": "arc", "xlink:from": "f", "xlink:to": "n", "xlink:arcrole": "http://www.xbrl.org/2003/arcrole/fact-footnote", "order": "1"}),
            )
        )
    return [("i.xml", inst)] + docs


def inline_trees(d):
    v, parts, facts, docs = documents(d)
    body, after = [], []
    for t, a, x in facts:
        a = dict(a, name=t)
        if "decimals" in a:
            a["scale"] = v["scale"]
            body.append(el("ix:nonFraction", a, text=x))
        elif t == "ex:B":
            a["format"] = v["format"]
            if v["note"] is not None:
                a["continuedAt"] = "more"
                after.append(el("ix:continuation", {"id": "more"}, text="~"))
                after.append(el("ix:relationship", {"fromRefs": v["fid"], "toRefs": "n"}))
                after.append(el("ix:footnote", {"id": "n", "xml:lang": v["lang"]}, text=v["note"]))
            body.append(el("ix:nonNumeric", a, text=x))
        else:
            body.append(el("ix:nonFraction", a, text=x))
    return [("i.html", inline(body + [x for x in after if x.tag != q("ix:relationship")], parts + [x for x in after if x.tag == q("ix:relationship")]))] + docs


def opened(d, how="xml"):
    return p21.open_with_service(xml_trees(d)) if how == "xml" else open_xhtml(inline_trees(d))


def variant(S, topic, tag, n):
    """A filing that is special in one respect."""
    v = {
        "value": lambda: {"value": S.str("value" + tag, "123", 1, n), "fid": "f" + S.str("id" + tag, "fgh", 1)},
        "text": lambda: {"text": S.str("text" + tag, "ab", 1, n)},
        "context": lambda: {"ident": S.str("ident" + tag, "ab", 1, n), "date": S.pick("date" + tag, ["2020-12-31", "2021-01-01"]), "dim": S.pick("dim" + tag, [None, "M", "N", "T", "TM"])},
        "unit": lambda: {"measure": "iso4217:" + S.str("measure" + tag, "AB", 1)},
        "concept": lambda: {"type": S.pick("type" + tag, ["xbrli:monetaryItemType", "xbrli:stringItemType", "xbrli:integerItemType"]), "balance": S.pick("balance" + tag, [None, "debit", "credit"])},
        "label": lambda: {"label": S.str("label" + tag, "xy", 1, n), "lang": S.pick("lang" + tag, ["en", "it", "de"])},
        "role": lambda: {"info": S.str("info" + tag, "xy", 1, n), "arcs": S.pick("arcs" + tag, [0, 1, 2]), "weight": S.pick("weight" + tag, ["1", "-1"])},
        "note": lambda: {"note": S.pick("has note" + tag, [0, 1]) and S.str("note" + tag, "xy", 1, n) or None, "lang": S.pick("lang" + tag, ["en", "it"])},
        "bad": lambda: {"bad": S.pick("bad" + tag, [None, "unit", "context", "concept"])},
        "format": lambda: dict(zip(("format", "text"), S.pick("format" + tag, [("ixt:date-day-month", "1.2"), ("ixt:date-month-day", "1.2"), ("ixt:date-day-monthname-year-da", "2. feb 2020"), ("ixt:date-day-monthname-year-en", "2 feb 2020"), (None, "1.2")])), scale=S.pick("scale" + tag, [None, "3"])),
    }[topic]()
    return v


XML = ["value", "text", "context", "unit", "concept", "label", "role", "note", "bad"]
INLINE = ["value", "context", "note", "bad", "format"]


def before(S, p):
    """A filing says the same before and after another one with the same names was opened."""
    topic = S.pick("topic", p["topics"])
    how = p["how"]
    a, b = variant(S, topic, " a", p["n"]), variant(S, topic, " b", p["n"])
    if p.get("second"):
        a = dict(variant(S, S.pick("second", p["second"]), " 2", p["n"]), **a)
    fa = opened(a, how)
    first = said(fa)
    fb = opened(b, p.get("other", how))
    said(fb)
    for n in p.get("asks", ()):
        outcome(DEMAND[n], fb)
    S.check_eq(said(fa), first, "a filing stays as it is when another one is opened")
    S.check_eq(said(opened(a, how)), first, "a filing is read as if it were the only one")
    S.cover(topic)


DEMAND = {
    "facts": lambda f: [fact(x) for x in f.get_all_facts()],
    "core": lambda f: [x.get_id() for x in f.get_all_core_facts()],
    "elements": lambda f: [element(x) for x in f.get_all_report_elements()],
    "kinds": lambda f: [[str(x.get_name()) for x in k()] for k in (f.get_all_concepts, f.get_all_abstracts, f.get_all_line_items, f.get_all_hypercubes, f.get_all_dimensions, f.get_all_members, f.get_all_reported_concepts)],
    "components": lambda f: [component(c) for c in f.get_all_components()] + [f.get_all_component_uris()] + [c.convert_to_dict() for c in f.get_all_components()],
    "networks": lambda f: [network(n) for n in f.get_all_physical_networks()] + [n.convert_to_dict() for n in f.get_all_physical_networks()],
    "errors": lambda f: [f.has_any_errors()] + [[error(e) for e in k] for k in (f.get_all_errors(), f.get_errors(), f.get_warnings(), f.get_infos())],
    "search": lambda f: [str(f.get_report_element_by_name("ex:A").get_name()), f.get_concept_by_name("ex:B").get_data_type(), [x.get_id() for x in f.get_facts_by_concept_name("ex:A")], [x.get_id() for x in f.get_facts_by_concept(f.get_concept("ex:B"))], raises(f.get_concept, "ex:Q")],
    "languages": lambda f: languages(f) + f.get_preferred_languages("xx", False, False, True),
    "calculation": lambda f: [[outcome(c.get_calculation_network().is_aggregation_consistent, f.get_all_facts()), c.get_calculation_network().is_balance_consistent()] for c in f.get_all_components() if c.has_calculation_network()],
    "labels": lambda f: f.get_all_labels(),
    "dicts": lambda f: [x.convert_to_dict() for x in f.get_all_facts()] + [x.convert_to_dict() for x in f.get_all_report_elements()],
    "values": lambda f: [x.get_value() for x in f.get_all_facts() if x.get_id() == "g"] + [str(x) for x in f.get_all_facts()],
    "print": lambda f: printed(f),
    "fact table": lambda f: p21.with_settings(None, lambda: f.generate_fact_table_pandas_df(**SETTINGS).rows),
    "core table": lambda f: p21.with_settings(None, lambda: f.generate_core_fact_table_pandas_df(**SETTINGS).rows),
    "element table": lambda f: p21.with_settings(None, lambda: f.generate_report_elements_as_pandas_df(**SETTINGS).rows),
    "component table": lambda f: p21.with_settings(None, lambda: f.generate_components_as_pandas_df(**SETTINGS).rows),
    "label table": lambda f: p21.with_settings(None, lambda: f.generate_labels_as_pandas_df().rows),
}
SETTINGS = dict(languages=["fr", "en"], match_locale=False, allow_default=True, allow_system_language=False, allow_report_language=False, allow_mixed=True)


def printed(f):
    out = []
    for x in [f.get_all_facts()] + f.get_all_components() + f.get_all_physical_networks():
        s = p24.shown(p24.pprint_module.pprint, x)
        out.append([s.lines, [[t.field_names, [[str(c) for c in r] for r in t.rows]] for t in s.tables]])
    return out


def asked(S, p):
    """Asking a filing changes nothing: every answer is the one an untouched filing gives."""
    d = variant(S, S.pick("topic", p["topics"]), "", 1) if p["topics"] else {"dim": S.pick("dim", ["TM", None]), "note": S.pick("note", ["n", None]), "bad": S.pick("bad", ["concept", None])} if p.get("vary") else {"dim": "TM", "note": "n", "bad": "concept", "label": "L"}
    names = [S.pick("ask%d" % i, p["asks"]) for i in range(p["k"])]
    last = S.pick("last", p["lasts"])
    f = opened(d)
    for n in names:
        DEMAND[n](f)
    got = DEMAND[last](f)
    S.check_eq(got, DEMAND[last](opened(d)), "an answer does not depend on what was asked before")
    S.check_eq(said(f), said(opened(d)), "asking does not change a filing")
    S.check(SETTINGS["languages"] == ["fr", "en"], "asking does not change what is asked with")
    S.cover("asked")


def mixed():
    """Documents with everything that has no order of its own: prefixes, languages, arc roles, footnotes, dimensions."""
    trees = xml_trees(dict(dim="TM", note="n", bad="concept", label="L"))
    inst, tax, lb = [t for _, t in trees]
    inst.append(el("ex:B", {"id": "k", "contextRef": "c"}, text="k"))
    return trees


def order_docs(kind):
    if kind == "inline":
        return inline_trees(dict(dim="TM", note="n", bad="context", label="L"))
    if kind == "arcroles":
        return mixed()
    trees = mixed()
    if kind == "prefixes":
        # one prefix with two meanings and one namespace with two prefixes
        t = schema(NS["ey"], ("ey_A", "A"), ("ey_B", "B"), swap=True)
        t.append(el("xs:annotation", None, nsmap={"e2": NS["ex"], "e3": NS["ey"]}))
        trees.append(("ey.xsd", t))
    return trees


def answers(kind):
    trees = order_docs(kind)
    ctx = new_context(trees)
    f = Filing((XHTMLFilingParser if kind == "inline" else XMLFilingParser)(ctx).parse())
    if p21.SERVICE is not None:
        ctx.get_translation_service = lambda: p21.SERVICE
    out = [said(f), printed(f)]
    for k in ("search", "labels", "fact table", "component table", "calculation", "errors", "kinds"):
        try:
            out.append(DEMAND[k](f))
        except Exception as e:
            out.append(type(e).__name__)
    return out


def run_order(S, p):
    """The order in which sets are gone through, which differs from run to run, changes nothing."""
    kind = S.pick("documents", p["kinds"])
    if p.get("print"):
        S.observe("said", json.dumps(answers(kind), default=str))
        return
    if S.symbolic:
        with order.Order(S) as o:
            got = answers(kind)
        S.check(got == answers(kind), "every run says the same")
        S.cover("sets" if o.seen else "none")
        S.cover(kind)
    elif S.confirm:
        S.check(len(runs(S, p)) == 1, "every run says the same")


def runs(S, p):
    """What runs of the real code with different hashes say."""
    seen = set()
    for s in range(1, 17, 8):
        ps = []
        for k in range(s, s + 8):
            d = tempfile.mkdtemp(dir=HOME)
            x = subprocess.Popen(
                [sys.executable, "-W", "ignore", env.VERIF + "/sx/native.py", "-", d, "harness.p25"],
                env=dict(os.environ, PYTHONHASHSEED=str(k)), stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True,
            )
            x.stdin.write(json.dumps(dict(harness="run_order", param=dict(p, print=1), values=S.values)))
            x.stdin.close()
            ps.append((x, d))
        for x, d in ps:
            seen.add(json.dumps(json.loads(x.stdout.read())["observed"]))
            x.wait()
            shutil.rmtree(d, ignore_errors=True)
        if len(seen) > 1:
            break
    return seen


ASSUMPTIONS = [
    "one order of elements per path: sets that share elements agree on their order; sets of more than 4 elements are seen in one order and its reverse; sets of objects that have no text keep the order of the run",
    "the first filing is garbage neither before nor after the second; threads are not considered",
]

HARNESSES = [
    Harness(
        before,
        quick=[dict(topics=[t], n=1, how="xml", asks=list(DEMAND)) for t in ("value", "text", "unit", "label")] + [dict(topics=[t], n=1, how="xml") for t in XML[2:3] + XML[4:5] + XML[6:]] + [dict(topics=[t], n=1, how="inline") for t in INLINE],
        thorough=[dict(topics=[t], n=1, how="xml", asks=list(DEMAND)) for t in XML] + [dict(topics=[t], n=2, how="xml") for t in XML] + [dict(topics=[t], n=2, how="inline") for t in INLINE] + [dict(topics=[t], n=1, how="inline", other="xml") for t in INLINE],
        covers=XML + ["format"],
        bounds="pairs of filings with the same names and ids that differ in one of ten respects, texts of up to %(n)d characters",
    ),
    Harness(
        asked,
        quick=[dict(topics=[], asks=list(DEMAND), lasts=list(DEMAND)[i::5], k=1) for i in range(5)],
        thorough=[dict(topics=[], asks=list(DEMAND), lasts=list(DEMAND)[i::8], k=1, vary=1) for i in range(8)] + [dict(topics=[], asks=list(DEMAND), lasts=list(DEMAND)[i::10], k=2) for i in range(10)],
        covers=["asked"],
        bounds="%(k)d question(s) of 19 kinds before the last one, with and without dimensions, footnotes and errors",
    ),
    Harness(run_order, quick=[dict(kinds=[k]) for k in ("inline", "arcroles", "prefixes")], covers=["inline", "arcroles", "prefixes", "sets"], bounds="all orders of sets of up to 4 elements, one order and its reverse of larger ones"),
]
