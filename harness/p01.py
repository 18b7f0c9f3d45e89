"""P01: every reported fact can be found again."""
from harness.lib import *
from sx.api import Harness

PROPERTY = "P01"

SCHEMA = ("ex.xsd", [("ex_A", "A", {}), ("ex_B", "B", {}), ("ex_Ab", "Ab", {"abstract": "true"})])
DIMS = [
    ("ex_D", "DAxis", {"abstract": "true", "substitutionGroup": "xbrldt:dimensionItem", "type": "xbrli:stringItemType"}),
    ("ex_M", "MMember", {"abstract": "true", "type": "nonnum:domainItemType"}),
]



def taxonomy():
    root = schema(NS["ex"])
    for i, n, o in SCHEMA[1] + DIMS:
        root.append(concept_el(i, n, **{k.replace(":", "__"): v for k, v in o.items()}))
    return root


def taxonomies(swap=False):
    """A second namespace declares a concept of the same local name, perhaps with the prefix of the first."""
    return [("ex.xsd", taxonomy()), ("ey.xsd", schema(NS["ey"], ("ey_A", "A"), swap=swap))]


def named(x):
    n = x.get_name()
    for p in ("ex", "ey"):
        if n.uri == NS[p]:
            return p + ":" + n.local_name
    return "?"


def member(dim="ex:DAxis", mem="ex:MMember"):
    return el("xbrldi:explicitMember", {"dimension": dim}, text=mem, nsmap=nsmap("xbrldi", "ex"))


def contexts():
    return [context_el("c0"), context_el("c1", segment=[member()])]


def check_queries(S, f, want, swap=False):
    """want: list of (concept local name, id, value, is core) in any order."""
    facts = f.get_all_facts()
    S.check(len(facts) == len(want), "every valid fact is reported exactly once")
    left = list(facts)
    for name, fid, value, core in want:
        hit = None
        for x in left:
            if named(x.get_concept()) == name and x.get_id() == fid and str(x) == value and x.is_core() == core:
                hit = x
                break
        S.check(hit is not None, "a reported fact is returned with its concept, id and value")
        left = [x for x in left if x is not hit]
    names = {w[0] for w in want}
    S.check(sorted(named(c) for c in f.get_all_reported_concepts()) == sorted(names), "reported concepts are exactly those with facts")
    S.check(len(f.get_all_core_facts()) == len([w for w in want if w[3]]), "core facts are exactly those without dimensions")
    for x in f.get_all_core_facts():
        S.check(any(x is y for y in facts) and not x.get_context().has_noncore_dimensions(), "a core fact has no dimension")
    for n in ("ex:A", "ex:B", "ey:A"):
        c = f.get_concept_by_name(QName(NS[n[:2]], n[:2], n[3:]))
        ways = [f.get_facts_by_concept(c), f.get_facts_by_concept_name(c.get_name()), f.get_facts_by_concept_name(c.get_name().clark_notation())]
        if not swap:
            ways.append(f.get_facts_by_concept_name(n))
        for got in ways:
            S.check(len(got) == len([w for w in want if w[0] == n]), "selection by concept returns every fact of the concept")
            for x in got:
                S.check(named(x.get_concept()) == n, "selection by concept returns only its facts")
                S.check(any(x is y for y in facts), "selection by concept returns facts of the filing")
    S.observe("facts", [[named(x.get_concept()), x.get_id(), str(x)] for x in facts])


def xml(S, p):
    elems, want = [], []
    ids = []
    for i in range(p["k"]):
        name = S.pick("concept%d" % i, p["names"])
        ctx = "c" + S.str("ctx%d" % i, "012", 1)
        has_id = S.pick("hasid%d" % i, [False, True])
        fid = None
        if has_id:
            fid = "f" + S.str("id%d" % i, "abA", 1)
            for o in ids:
                if fid == o:
                    # facts of different instances may have the same id
                    S.assume(p.get("docs") == 2)
                    S.cover("same id")
            ids.append(fid)
        v = S.str("v%d" % i, "0a. ", p["n"])
        elems.append(el(name, {"id": fid, "contextRef": ctx, "unitRef": "u"}, text=v))
        if name in ("ex:A", "ex:B", "ey:A") and ctx != "c2":
            want.append((name, fid, v, ctx == "c0"))
    swap = S.pick("swap", [0, 1]) if p.get("swap", 1) else 0
    docs = p.get("docs", 1)
    f = open_xml([("i%d.xml" % j, instance(*contexts(), unit_el("u"), *elems[j::docs])) for j in range(docs)] + taxonomies(swap))
    check_queries(S, f, want, swap)
    S.check(len(f.get_all_errors()) == p["k"] - len(want), "one error per fact that is not reported, none otherwise")
    S.cover("reached")
    if len(want) == p["k"]:
        S.cover("all")


def inlined(S, p):
    body, hidden, want, ids = [], [], [], []
    for i in range(p["k"]):
        name = S.pick("concept%d" % i, p["names"])
        ctx = "c" + S.str("ctx%d" % i, "012", 1)
        kind = S.pick("kind%d" % i, ["ix:nonNumeric", "ix:nonFraction"])
        place = S.pick("place%d" % i, p["places"])
        fid = None
        if S.pick("hasid%d" % i, [False, True]):
            fid = "f" + S.str("id%d" % i, "abA", 1)
            for o in ids:
                S.assume(fid != o)
            ids.append(fid)
        v = str(i + 1)
        e = el(kind, {"id": fid, "name": name, "contextRef": ctx, "unitRef": "u"}, text=v)
        if place == "hidden":
            hidden.append(e)
        elif place == "nested":
            body.append(el("xhtml:div", None, el("xhtml:span", None, e)))
        else:
            body.append(e)
        if name in ("ex:A", "ex:B", "ey:A") and ctx != "c2":
            want.append((name, fid, v, ctx == "c0"))
    d = inline(body, contexts() + [unit_el("u")], hidden)
    swap = S.pick("swap", [0, 1]) if p.get("swap", 1) else 0
    f = open_xhtml([("d.htm", d)] + taxonomies(swap))
    check_queries(S, f, want, swap)
    S.cover("reached")
    if len(want) == p["k"]:
        S.cover("all")


def many(S, p):
    """Fourteen facts, three of them free, in two instances or one inline document."""
    facts, want = [], []
    at = S.pick("at", p["at"])
    inline_doc = S.pick("inline", [0, 1])
    for i in range(14):
        free = i in (at, at + 3)
        name = S.pick("concept%d" % i, ["ex:A", "ey:A", "ex:Ab"]) if free else ["ex:A", "ex:B", "ey:A"][i % 3]
        ctx = "c" + S.str("ctx%d" % i, "012", 1) if free else "c%d" % (i % 2)
        fid = None if i % 5 == 4 and not inline_doc else "f%d" % i
        # values repeat, so that facts are told apart by their ids only
        v = str(i % 4) if inline_doc else ["x" * 300, "1", " ", "1"][i % 4] + S.str("v%d" % i, "0a", 1) if free else str(i % 4)
        facts.append(el(("ix:nonNumeric" if i % 2 else "ix:nonFraction") if inline_doc else name, dict({"id": fid, "contextRef": ctx, "unitRef": "u"}, **({"name": name} if inline_doc else {})), text=v))
        if name != "ex:Ab" and ctx != "c2":
            want.append((name, fid, v, ctx == "c0"))
    if inline_doc:
        d = inline([el("xhtml:div", None, *facts[:5]), el("xhtml:p", None, el("xhtml:span", None, *facts[5:9]))], contexts() + [unit_el("u")], facts[9:])
        f = open_xhtml([("d.htm", d)] + taxonomies())
    else:
        f = open_xml([("i.xml", instance(*contexts(), unit_el("u"), *facts[:8])), ("j.xml", instance(*contexts(), unit_el("u"), *facts[8:]))] + taxonomies())
    check_queries(S, f, want)
    S.check(len(f.get_all_errors()) == 14 - len(want), "one error per fact that is not reported, none otherwise")
    S.cover("reached")


ALL = ["ex:A", "ex:B", "ey:A", "ex:Ab", "ex:Nope"]
HARNESSES = [
    Harness(many, quick=[dict(at=[1, 7])], thorough=[dict(at=list(range(11)), _split={"at": 11, "inline": 2})], covers=["reached"], bounds="fourteen facts in two instances or one inline document, two of them with free concept, context and value"),
    Harness(
        xml,
        quick=[dict(k=1, n=2, names=ALL), dict(k=2, n=1, names=["ex:A", "ey:A", "ex:Ab"]), dict(k=3, n=1, names=["ex:A"], swap=0), dict(k=2, n=1, names=["ex:A", "ey:A"], swap=0, docs=2)],
        thorough=[dict(k=2, n=1, names=ALL, docs=2), dict(k=2, n=2, names=ALL), dict(k=3, n=1, names=["ex:A", "ex:B"]), dict(k=4, n=1, names=["ex:A"])],
        covers=["reached", "all", "same id"],
        bounds="up to 3 (4) facts in one or two instances, each of any of 5 elements (3 concepts in two namespaces, an abstract, an undeclared name), in a core, a dimensional or a missing context, with or without an id; value characters symbolic",
    ),
    Harness(
        inlined,
        quick=[dict(k=1, places=["body", "nested"], names=ALL), dict(k=2, places=["body", "hidden"], names=["ex:A", "ey:A", "ex:Ab"])],
        thorough=[dict(k=2, places=["hidden", "nested"], names=ALL), dict(k=2, places=["body", "hidden"], names=ALL)],
        split=dict(place0=2),
        covers=["reached", "all"],
        bounds="1-2 inline facts, numeric or not, in the body, nested in markup or in the hidden section",
    ),
]
ASSUMPTIONS = ["ids of facts are distinct in a document when present"]
