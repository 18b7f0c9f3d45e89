"""P22: finding report elements by name."""
from harness.lib import *
from sx.api import Harness

PROPERTY = "P22"

ELEMS = ["A", "B", "Ab"]
KIND = {"A": "Concept", "B": "Concept", "Ab": "Abstract"}


def filing(S, k, shared):
    """k namespaces declaring A, B and Ab each, bound to prefixes."""
    trees = []
    root_ns = {}
    for i in range(k):
        root_ns["p%d" % i] = "http://n/%d" % i
    if shared:
        root_ns["alt"] = "http://n/0"
    for i in range(k):
        els = [concept_el("e%d_%s" % (i, n), n, abstract="true" if n == "Ab" else "false") for n in ELEMS]
        root = el("xs:schema", {"targetNamespace": "http://n/%d" % i}, *els, nsmap=nsmap("xs", "xbrli", "link", "xlink", **root_ns))
        trees.append(("s%d.xsd" % i, root))
    trees.append(("i.xml", instance()))
    return open_xml(trees)


def find(f, name):
    try:
        return f.get_report_element_by_name(name)
    except (ValueError, KeyError):
        return None


def find_concept(f, name):
    try:
        return f.get_concept_by_name(name)
    except (ValueError, KeyError):
        return None


def is_elem(S, e, i, n):
    S.check(e is not None, "a declared element is found")
    S.check(e.get_name().uri == "http://n/%d" % i and e.get_name().local_name == n and e.get_id() == "e%d_%s" % (i, n), "the element found is the one named")
    S.check(type(e).__name__ == KIND[n], "the element found has its kind")


def search(S, p):
    f = filing(S, p["k"], p["shared"])
    form = S.pick("form", ["prefix", "clark", "local", "qname"])
    loc = S.str("local", "AbBX", 1, p["n"])
    known = [n for n in ELEMS if n == loc]
    idx = list(range(p["k"]))
    if form == "prefix":
        pre = S.str("prefix", "p0123", 1, 2) if not p["shared"] else S.pick("alt", ["alt", "p0"])
        hit = [i for i in idx if pre == "p%d" % i] or ([0] if pre == "alt" and p["shared"] else [])
        name = pre + ":" + loc
    elif form == "clark":
        u = "http://n/" + S.str("u", "012x", 1)
        hit = [i for i in idx if u == "http://n/%d" % i]
        name = "{" + u + "}" + loc
    elif form == "qname":
        u = "http://n/" + S.str("u", "012x", 1)
        hit = [i for i in idx if u == "http://n/%d" % i]
        name = QName(u, S.pick("qp", ["p0", "zz", ""]), loc)
    else:
        hit = idx
        name = loc
    e, c = find(f, name), find_concept(f, name)
    if not known or not hit:
        S.check(e is None and c is None, "an undeclared name finds nothing")
        S.cover("none")
        return
    n = known[0]
    if len(hit) > 1:
        S.check(e is None and c is None, "an ambiguous local name finds nothing rather than anything")
        S.cover("ambiguous")
        return
    is_elem(S, e, hit[0], n)
    if KIND[n] == "Concept":
        S.check(c is e, "a concept is found as a concept")
        S.check(f.get_concept(name) is e, "get_concept is the same search")
        S.check(f.get_facts_by_concept_name(name) == [], "its facts are found by the same name")
    else:
        S.check(c is None, "an element that is no concept is not found as a concept")
    S.cover("found")


def clash(S, p):
    """A prefix that means different namespaces in different documents."""
    has = [S.pick("has%d" % i, [0, 1]) for i in range(p["k"])]
    pre = [S.pick("pre%d" % i, ["p", "q"]) for i in range(p["k"])]
    trees = []
    for i in range(p["k"]):
        els = [concept_el("e%d" % i, "A" if has[i] else "B")]
        trees.append(("s%d.xsd" % i, el("xs:schema", {"targetNamespace": "http://n/%d" % i}, *els, nsmap=nsmap("xs", "xbrli", "link", "xlink", **{pre[i]: "http://n/%d" % i}))))
    f = open_xml(trees + [("i.xml", instance())])
    name = S.str("name", "pq", 1) + ":" + S.str("local", "AB", 1)
    e, c = find(f, name), find_concept(f, name)
    hit = [i for i in range(p["k"]) if name == pre[i] + ":" + ("A" if has[i] else "B")]
    if len(hit) == 1:
        S.check(e is not None and e.get_id() == "e%d" % hit[0] and c is e, "a name finds the one element that it may mean")
        S.cover("found")
    else:
        S.check(e is None and c is None, "a name that may mean several elements or none finds none")
        S.cover("ambiguous" if hit else "none")


def listing(S, p):
    """The listings by kind split all elements."""
    n = p["k"]
    els, want = [], {}
    kinds = {
        "concept": {},
        "abstract": {"abstract": "true"},
        "hypercube": {"abstract": "true", "substitutionGroup": "xbrldt:hypercubeItem"},
        "dimension": {"abstract": "true", "substitutionGroup": "xbrldt:dimensionItem"},
        "member": {"abstract": "true", "type": "nonnum:domainItemType"},
    }
    for i in range(n):
        k = S.pick("kind%d" % i, sorted(kinds))
        name = "E" + S.str("n%d" % i, "abc", 1)
        for o in want:
            S.assume(o != name)
        want[name] = k
        els.append(("ex_%d" % i, name, kinds[k]))
    f = open_xml([("ex.xsd", schema(NS["ex"], *els)), ("i.xml", instance())])
    got = f.get_all_report_elements()
    S.check(len(got) == n, "every element is listed once")
    lists = {
        "concept": f.get_all_concepts(),
        "abstract": f.get_all_abstracts(),
        "hypercube": f.get_all_hypercubes(),
        "dimension": f.get_all_dimensions(),
        "member": f.get_all_members(),
    }
    S.check(f.get_all_line_items() == [], "no line items without a network")
    for k, l in lists.items():
        S.check(len(l) == len([1 for v in want.values() if v == k]), "each kind lists exactly its elements")
        for e in l:
            S.check(any(e is x for x in got), "a kind lists elements of the filing")
            S.check(any(m == e.get_name().local_name and v == k for m, v in want.items()), "each kind lists its own elements")
    S.cover("reached")


def many(S, p):
    """Eight schemas with six elements each."""
    tail, num = S.str("tail", "ab", 1), S.str("num", "0189", 1, 2)
    at = S.pick("at", p["at"])
    trees, names = [], []
    prefixes = {"p%d" % i: "http://n/%d" % i for i in range(8)}
    for i in range(8):
        ns = ["N%d" % j for j in range(4)] + ["Only%d" % i, "M" + tail if i == at else "Mx"]
        names.append(ns)
        trees.append(("s%d.xsd" % i, el("xs:schema", {"targetNamespace": "http://n/%d" % i}, *[concept_el("e%d_%s" % (i, n), n, abstract="true" if n == "N3" else "false") for n in ns], nsmap=nsmap("xs", "xbrli", "link", "xlink", **prefixes))))
    f = open_xml(trees + [("i.xml", instance())])
    S.check(len(f.get_all_report_elements()) == 48 and len(f.get_all_concepts()) == 40 and len(f.get_all_abstracts()) == 8, "every element is listed once")
    for i in range(8):
        for n in names[i]:
            for x in ("p%d:%s" % (i, n), "{http://n/%d}%s" % (i, n), QName("http://n/%d" % i, "zz", n)):
                e, c = find(f, x), find_concept(f, x)
                S.check(e is not None and e.get_id() == "e%d_%s" % (i, n) and (c is None if n == "N3" else c is e), "the element found is the one named")
        e = find(f, "Only%d" % i)
        S.check(e is not None and e.get_id() == "e%d_Only%d" % (i, i), "a local name that means one element finds it")
        S.check(find(f, "N%d" % (i % 4)) is None, "an ambiguous local name finds nothing rather than anything")
    e = find(f, "Ma")
    S.check(e is None if tail != "a" else e is not None and e.get_id() == "e%d_Ma" % at, "a local name that means one element finds it")
    for x in ("p" + num + ":N0", "{http://n/" + num + "}N0"):
        e = find(f, x)
        if num in [str(i) for i in range(8)]:
            S.check(e is not None and e.get_id() == "e" + num + "_N0", "the element found is the one named")
            S.cover("found")
        else:
            S.check(e is None, "an undeclared name finds nothing")
            S.cover("none")


HARNESSES = [
    Harness(many, quick=[dict(at=[0, 7])], thorough=[dict(at=list(range(8)), _split={"at": 8})], covers=["found", "none"], bounds="eight namespaces of six elements, found in every form; one name and one prefix free"),
    Harness(search, quick=[dict(k=1, n=2, shared=False), dict(k=2, n=1, shared=False), dict(k=2, n=2, shared=True)], thorough=[dict(k=3, n=2, shared=False), dict(k=2, n=3, shared=True)], covers=["none", "found", "ambiguous"], bounds="1-3 namespaces of 3 elements, names in prefix, Clark, local and QName form with free prefix, namespace and local name"),
    Harness(clash, quick=[dict(k=2)], thorough=[dict(k=3)], covers=["found", "ambiguous", "none"], bounds="2 (3) documents that bind two prefixes to their namespaces, two names"),
    Harness(listing, quick=[dict(k=2)], thorough=[dict(k=3)], covers=["reached"], bounds="2 (3) elements of any of 5 kinds"),
]
ASSUMPTIONS = []
