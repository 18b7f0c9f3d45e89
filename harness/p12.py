"""P12: report elements of the taxonomy."""
from harness.lib import *
from sx.api import Harness
from brel.reportelements import Abstract, Concept, Dimension, Hypercube, LineItems, Member

PROPERTY = "P12"

INTEGER = "integer nonPositiveInteger negativeInteger long int short byte nonNegativeInteger unsignedLong unsignedInt unsignedShort unsignedByte positiveInteger".split()
NUMERIC = INTEGER + "decimal float double monetary shares pure percent perShare area volume mass energy power length memory temperature pressure frequency force speed".split()
OTHER = "string boolean hexBinary base64Binary anyURI QName duration dateTime time date gYearMonth gYear gMonthDay gDay gMonth normalizedString token language Name NCName textBlock escaped".split()

MONETARY = "xbrli:monetaryItemType"
# kind -> (abstract, substitution group, type)
KINDS = {
    "concept": (False, "xbrli:item", MONETARY),
    "abstract": (True, "xbrli:item", "xbrli:stringItemType"),
    "hypercube": (True, "xbrldt:hypercubeItem", "xbrli:stringItemType"),
    "dimension": (True, "xbrldt:dimensionItem", "xbrli:stringItemType"),
    "member": (True, "xbrli:item", "nonnum:domainItemType"),
    "lineitems": (True, "xbrli:item", "xbrli:stringItemType"),
    "tuple": (False, "xbrli:tuple", "ex:T"),
    "other": (False, None, "xs:string"),
}
CLASS = {"concept": Concept, "abstract": Abstract, "hypercube": Hypercube, "dimension": Dimension, "member": Member, "lineitems": LineItems}


def declare(ident, name, **a):
    return el("xs:element", dict({"id": ident, "name": name}, **{k.replace("__", ":"): v for k, v in a.items()}))


def open_schemas(*schemas):
    """schemas: (uri, target namespace, elements)"""
    trees = []
    for uri, ns, els in schemas:
        trees.append((uri, schema(ns, extra=els)))
    f = open_xml(trees + [("i.xml", instance())])
    return f, f.get_all_report_elements(), codes(f)


def true(S, tag):
    return S.pick(tag, ["true", "1"])


def kinds(S, p):
    """Each declaration becomes the report element it declares."""
    els, want = [], []
    for i in range(p["k"]):
        k = S.pick("kind%d" % i, p["kinds"])
        ab, sg, ty = KINDS[k]
        name = S.str("n%d" % i, p["alpha"], 1, p["n"])
        if k == "lineitems":
            name = name + "LineItems" + S.str("t%d" % i, "x", 0, 1)
        for w in want:
            S.assume(w[1] != name)
        has_id = S.pick("id%d" % i, [1, 0])
        ident = ("e%d" % i) + S.str("i%d" % i, "ab", 0, 1) if has_id else None
        abstract = true(S, "true%d" % i) if ab else S.pick("false%d" % i, [None, "false", "0"])
        e = declare(ident, name, abstract=abstract, substitutionGroup=sg, type=ty, xbrli__periodType="instant" if k not in ("other", "tuple") else None)
        els.append(e)
        want.append((k, name, ident))
    f, got, cs = open_schemas(("ex.xsd", NS["ex"], els))
    S.check(cs == [], "a valid declaration is not reported as an error")
    want = [w for w in want if w[0] in CLASS]
    S.check(len(got) == len(want), "each declaration gives one report element")
    for k, name, ident in want:
        hit = [e for e in got if e.get_name().local_name == name]
        S.check(len(hit) == 1, "a declared element is found under its name")
        e = hit[0]
        S.check(type(e) is CLASS[k], "a report element has the kind it declares")
        S.check(e.get_name().uri == NS["ex"], "a report element is in the target namespace")
        d = e.convert_to_dict()
        S.check(d["name"] == "ex:" + name and d["report-element-type"] == ("line item" if k == "lineitems" else k), "the element as a dictionary has its name and kind")
        S.check_eq(e.get_id() is None, ident is None, "a report element has an id when it declares one")
        if ident is not None:
            S.check(e.get_id() == ident, "a report element has its id")
            S.check(f.get_report_element_by_name(e.get_name()) is e, "found by name")
        S.cover(k)
    S.observe("kinds", sorted(type(e).__name__ for e in got))


def many(S, p):
    """Twenty-one declarations in three schemas, one of them with a free name and id."""
    order = sorted(CLASS) + ["tuple", "other"]
    tail, ident = S.str("tail", "aItem", 1, 2), S.str("id", "ab0", 1, 2)
    at = S.pick("at", p["at"])
    els, want = [[], [], []], []
    for i in range(21):
        k = order[(i * 3) % 8]
        ab, sg, ty = KINDS[k]
        name = ("N%d" % i if i != at else "Q" + tail) + ("LineItems" if k == "lineitems" else "")
        idx = "e%d" % i if i != at else "q" + ident
        els[i % 3].append(declare(idx, name, abstract="true" if ab else None, substitutionGroup=sg, type=ty, xbrli__periodType="instant" if k not in ("other", "tuple") else None))
        want.append((k, ["ex", "ey", "ez"][i % 3], name, idx))
    uris = {"ex": NS["ex"], "ey": NS["ey"], "ez": "http://example.com/ez"}
    f, got, cs = open_schemas(*[(n + ".xsd", uris[n], x) for n, x in zip(("ex", "ey", "ez"), els)])
    S.check(cs == [], "a valid declaration is not reported as an error")
    want = [w for w in want if w[0] in CLASS]
    S.check(len(got) == len(want), "each declaration gives one report element")
    for k, n, name, idx in want:
        hit = [e for e in got if e.get_name().local_name == name]
        S.check(len(hit) == 1 and type(hit[0]) is CLASS[k] and hit[0].get_name().uri == uris[n] and hit[0].get_id() == idx, "a declared element has its kind, namespace and id")
        S.check(f.get_report_element_by_name(hit[0].get_name()) is hit[0], "found by name")
    for get, k in ((f.get_all_concepts, "concept"), (f.get_all_abstracts, "abstract"), (f.get_all_hypercubes, "hypercube"), (f.get_all_dimensions, "dimension"), (f.get_all_members, "member"), (f.get_all_line_items, "lineitems")):
        S.check(len(get()) == len([w for w in want if w[0] == k]) and all(type(e) is CLASS[k] for e in get()), "all elements of a kind are listed")
    S.cover("reached")


def attributes(S, p):
    """The attributes of a concept are those declared."""
    els, want = [], []
    for i in range(p["k"]):
        per = S.pick("period%d" % i, ["instant", "duration"])
        bal = S.pick("balance%d" % i, [None, "debit", "credit"])
        nil = S.pick("nillable%d" % i, [None, "true", "false", "1", "0"])
        els.append(declare("e%d" % i, "E%d" % i, type=MONETARY, substitutionGroup="xbrli:item", nillable=nil, xbrli__periodType=per, xbrli__balance=bal))
        want.append((per, bal, nil in ("true", "1")))
    f, got, cs = open_schemas(("ex.xsd", NS["ex"], els))
    S.check(cs == [] and len(got) == p["k"], "every concept is read")
    for i, (per, bal, nil) in enumerate(want):
        c = f.get_concept_by_name(QName(NS["ex"], "ex", "E%d" % i))
        S.check(c.get_period_type() == per, "a concept has its period type")
        S.check(c.get_balance_type() == bal, "a concept has its balance type")
        S.check(c.is_nillable() is nil, "a concept has its nillability")
        S.check(c.get_data_type() == MONETARY, "a concept has its data type")
        d = c.convert_to_dict()
        S.check(d["name"] == "ex:E%d" % i and d["period-type"] == per and d["balance-type"] == bal and d["nillable"] == nil and d["data-type"] == MONETARY and d["report-element-type"] == "concept", "the concept as a dictionary")
    S.cover("reached")


def malformed(S, p):
    """A malformed concept is reported and not read; its neighbours are."""
    what = S.pick("what", ["period", "balance", "nillable", "type"])
    t = S.str("text", p["alpha"], 0, p["n"])
    a = {"type": MONETARY, "substitutionGroup": "xbrli:item", "nillable": "true", "xbrli__periodType": "instant", "xbrli__balance": "debit"}
    near = S.pick("near", p["near"]) if p.get("near") else ""
    t = near + t
    if what == "period":
        S.assume(t != "instant")
        S.assume(t != "duration")
        a["xbrli__periodType"] = None if S.pick("missing", [0, 1]) else t
        want = "INVALID_CONCEPT_PERIOD_TYPE"
    elif what == "balance":
        S.assume(t != "debit")
        S.assume(t != "credit")
        a["xbrli__balance"] = t
        want = "INVALID_CONCEPT_BALANCE_TYPE"
    elif what == "nillable":
        for ok in ("true", "false", "0", "1"):
            S.assume(t != ok)
        a["nillable"] = t
        want = "INVALID_CONCEPT_NILLABLE_VALUE"
    else:
        a["type"] = None
        want = "MISSING_CONCEPT_DATA_TYPE"
    good = declare("e1", "Good", type=MONETARY, substitutionGroup="xbrli:item", xbrli__periodType="duration")
    bad = declare("e0", "Bad", **a)
    els = [bad, good] if S.pick("first", [0, 1]) else [good, bad]
    f, got, cs = open_schemas(("ex.xsd", NS["ex"], els))
    S.check(cs == [want], "a malformed concept is reported once, by its own error")
    S.check(len(got) == 1 and got[0].get_name().local_name == "Good", "a malformed concept is not read, the others are")
    S.check(got[0].get_period_type() == "duration" and got[0].get_balance_type() is None and not got[0].is_nillable(), "the others are unaffected")
    S.cover(what)


def types(S, p):
    """numeric, integer, boolean and textual follow the data type, whatever its prefix."""
    pre = S.str("prefix", "abx", 0, 2)
    # a company may name a type of its own like a standard one with something before or after it
    before = S.pick("before", p.get("before", [""]))
    after = S.pick("after", p.get("after", [""]))
    local = before + S.pick("type", p["types"]) + "ItemType" + after
    ty = pre + ":" + local if pre else local
    f, got, cs = open_schemas(("ex.xsd", NS["ex"], [declare("e0", "E", type=ty, substitutionGroup="xbrli:item", xbrli__periodType="instant")]))
    S.check(cs == [] and len(got) == 1, "the concept is read")
    c = got[0]
    S.check(c.get_data_type() == ty, "the data type is kept")
    base = None if before or after else local[: -len("ItemType")]
    S.check(c.is_integer() is (base in INTEGER), "integer types")
    S.check(c.is_numeric() is (base in NUMERIC), "numeric types")
    S.check(c.is_boolean() is (base == "boolean"), "boolean types")
    S.check(c.is_textual() is (base in OTHER), "textual types")
    S.cover("reached")


def duplicates(S, p):
    """The first declaration of a name counts; names of other namespaces are their own."""
    per = [S.pick("period%d" % i, ["instant", "duration"]) for i in range(3)]
    names = [S.str("n%d" % i, "ab", 1) for i in range(3)]
    nss = ["ex"] + [S.pick("ns%d" % i, ["ex", "ey"]) for i in (1, 2)]
    docs = []
    for i in range(3):
        docs.append(("s%d.xsd" % i, NS[nss[i]], [declare("e%d" % i, names[i], type=MONETARY, substitutionGroup="xbrli:item", xbrli__periodType=per[i])]))
    f, got, cs = open_schemas(*docs)
    S.check(cs == [], "no error")
    first = []
    for i in range(3):
        if not any(nss[j] == nss[i] and names[j] == names[i] for j in first):
            first.append(i)
    S.check(len(got) == len(first), "each name is read once")
    for i in first:
        hit = [e for e in got if e.get_name().local_name == names[i] and e.get_name().uri == NS[nss[i]]]
        S.check(len(hit) == 1 and hit[0].get_id() == "e%d" % i and hit[0].get_period_type() == per[i], "the first declaration of a name counts")
    if len(first) < 3:
        S.cover("duplicate")
    S.cover("reached")


def typed(S, p):
    """A dimension is typed exactly when it refers to a domain, and has its type."""
    where = S.pick("where", ["none", "self", "dot", "sibling", "folder", "up", "unknown"])
    pre = S.pick("prefix", ["xbrldt", "dim"])
    ref = "d" + S.str("ref", "012", 1)
    doms = {"d0": "xs:string", "d1": "xs:integer", "d2": None}
    missing = S.pick("missing", [0, 1])
    have = {k: v for k, v in doms.items() if not (missing and k == ref)}
    dom_els = lambda: [el("xs:element", {"id": k, "name": "n" + k, "type": v}) for k, v in have.items()]
    base = "t/"
    href = {"self": "", "dot": ".", "sibling": "s.xsd", "folder": "sub/s.xsd", "up": "../s.xsd", "unknown": "nope.xsd"}
    uri = {"sibling": "t/s.xsd", "folder": "t/sub/s.xsd", "up": "s.xsd"}
    nm = {pre: NS["xbrldt"], "xs": NS["xs"]}
    d = etree.Element(q("xs:element"), nsmap=nm)
    for k, v in {"id": "dim", "name": "D", "abstract": "true", "type": "xbrli:stringItemType", "substitutionGroup": "xbrldt:dimensionItem", "xbrli:periodType": "instant"}.items():
        d.set(q(k), v)
    if where != "none":
        d.set(q("xbrldt:typedDomainRef"), href[where] + "#" + ref)
    root = etree.Element(q("xs:schema"), {"targetNamespace": NS["ex"]}, nsmap={"xs": NS["xs"], "xbrli": NS["xbrli"]})
    root.append(d)
    if where in ("self", "dot"):
        for e in dom_els():
            root.append(e)
    trees = [(base + "ex.xsd", root)]
    if where in uri:
        trees.append((uri[where], schema(NS["ey"], extra=dom_els())))
    if S.pick("order", [0, 1]):
        trees.reverse()
    f = open_xml(trees + [("i.xml", instance())])
    cs = codes(f)
    dims = f.get_all_dimensions()
    S.check(len(dims) == 1, "the dimension is read")
    found = where not in ("none", "unknown") and not missing
    if where == "none" or found:
        S.check(cs == [], "no error")
    else:
        S.check(cs == ["REFERENCED_SCHEMA_ELEMENT_NOT_FOUND"], "a missing domain is reported")
    S.check(dims[0].is_explicit() is (not found), "a dimension is typed exactly when its domain is found")
    if found:
        t = dims[0].get_type()
        w = {"d0": "string", "d1": "integer", "d2": "anyType"}
        for k, v in w.items():
            if ref == k:
                S.check(t.uri == NS["xs"] and t.local_name == v, "a typed dimension has the type of its domain")
        S.cover(where)
    else:
        S.check(raises(dims[0].get_type) == "ValueError", "an explicit dimension has no type")
        S.cover("explicit")


ALLK = sorted(KINDS)
HARNESSES = [
    Harness(kinds, quick=[dict(k=1, n=2, alpha="aItem", kinds=ALLK), dict(k=2, n=1, alpha="ab", kinds=["concept", "dimension", "member", "other"])], thorough=[dict(k=1, n=3, alpha="aItemLn", kinds=ALLK), dict(k=2, n=1, alpha="ab", kinds=ALLK)], split=dict(kind0=4), covers=sorted(CLASS), bounds="1-2 declarations of any of 8 kinds with free names and ids, every spelling of abstract"),
    Harness(many, quick=[dict(at=[0, 7, 20])], thorough=[dict(at=list(range(21)), _split={"at": 21})], covers=["reached"], bounds="21 declarations of eight kinds in three namespaces, one with free name and id"),
    Harness(attributes, quick=[dict(k=1), dict(k=2)], thorough=[dict(k=2)], covers=["reached"], bounds="1-2 concepts with every combination of period type, balance and nillability"),
    Harness(malformed, quick=[dict(n=2, alpha="tie01 "), dict(n=1, alpha="s e", near=["instant", "duration", "debit", "credit", "true", "false"])], thorough=[dict(n=3, alpha="tiue01 "), dict(n=2, alpha="s eT", near=["instant", "duration", "debit", "credit", "true", "false", "", "Instant", "TRUE"])], covers=["period", "balance", "nillable", "type"], bounds="malformed attribute texts of up to 2 (3) free characters, also after a valid text; missing attributes"),
    Harness(types, quick=[dict(types=NUMERIC + OTHER), dict(types=NUMERIC + OTHER, before=["non", "x.", ""], after=["", "X", "-2"])], covers=["reached"], bounds="56 item types with prefixes of up to 2 characters, and types whose names contain these"),
    Harness(duplicates, covers=["reached", "duplicate"], bounds="3 declarations in 3 schemas over 2 names and 2 namespaces"),
    Harness(typed, covers=["none", "self", "dot", "sibling", "folder", "up", "explicit"][1:], bounds="typed domain references into 6 places, present or missing, with two prefixes, both document orders"),
]
ASSUMPTIONS = ["elements substitute xbrli:item, xbrldt:hypercubeItem, xbrldt:dimensionItem or xbrli:tuple directly"]
