"""P07: entity, unit and dimensions of a fact."""
from harness.lib import *
from sx.api import Harness
from brel.characteristics import Aspect

PROPERTY = "P07"

DIMENSION = {"abstract": "true", "substitutionGroup": "xbrldt:dimensionItem", "type": "xbrli:stringItemType"}
MEMBER = {"abstract": "true", "type": "nonnum:domainItemType"}


def taxonomy(ns="ex"):
    typed = dict(DIMENSION)
    typed["xbrldt:typedDomainRef"] = "#ex_dom"
    return schema(
        NS[ns],
        ("ex_A", "A"),
        ("ex_B", "B"),
        ("ex_D1", "D1", DIMENSION),
        ("ex_D2", "D2", DIMENSION),
        ("ex_T", "T", typed),
        ("ex_M1", "M1", MEMBER),
        ("ex_M2", "M2", MEMBER),
        extra=[el("xs:element", {"id": "ex_dom", "name": "dom", "type": "xs:string"})],
    )


def open_parts(*parts):
    f = open_xml([("i.xml", instance(*parts)), ("ex.xsd", taxonomy())])
    return {x.get_id(): x for x in f.get_all_facts()}, codes(f)


def fact(i, ctx="c0", unit="u0", **a):
    return el("ex:A", dict({"id": "f%d" % i, "contextRef": ctx, "unitRef": unit}, **a), text="1")


def entity(S, p):
    ids, parts = [], [unit_el("u0")]
    for i in range(p["k"]):
        s = "http://" + S.str("s%d" % i, p["alpha"], p["n"])
        e = S.str("e%d" % i, p["alpha"], 1, p["n"])
        ids.append((s, e))
        parts.append(context_el("c%d" % i, scheme=s, ident=p.get("pad", "") + e + p.get("pad", "") or None))
        parts.append(fact(i, "c%d" % i))
    facts, cs = open_parts(*parts)
    S.check(cs == [] and len(facts) == p["k"], "no error")
    got = [facts["f%d" % i].get_entity() for i in range(p["k"])]
    for g, (s, e) in zip(got, ids):
        if e == "" and p.get("pad", "") == "":
            S.check(g is None, "no identifier, no entity")
        else:
            S.check(g is not None and g.get_value() == "{" + s + "}" + e and g.get_schema() == s, "each fact has the entity of its context")
    if p["k"] == 2 and got[0] is not None and got[1] is not None:
        S.check((got[0] == got[1]) == (ids[0] == ids[1]), "entities are equal exactly when scheme and identifier are")
        S.cover("two")
    S.cover("reached")


def entity_shape(S, p):
    """Missing parts."""
    ident = S.pick("ident", ["none", "noscheme", "ok"])
    kids = [] if ident == "none" else [el("xbrli:identifier", {"scheme": "s" if ident == "ok" else None}, text="e")]
    kids = [el("xbrli:entity", None, *kids)] if S.pick("entity", [0, 1]) else []
    if S.pick("period", [0, 1]):
        kids.append(instant("2020-01-01"))
    has_e, has_p = kids and kids[0].tag == q("xbrli:entity"), kids and kids[-1].tag == q("xbrli:period")
    facts, cs = open_parts(unit_el("u0"), el("xbrli:context", {"id": "c0"}, *kids), context_el("c1"), fact(0, "c0"), fact(1, "c1"))
    S.check("f1" in facts, "other facts are kept")
    if not has_p:
        S.check(cs == ["MISSING_CONTEXT_PERIOD"] and "f0" not in facts, "a context needs a period")
    elif not has_e:
        S.check(cs == ["MISSING_CONTEXT_ENTITY"] and "f0" not in facts, "a context needs an entity")
    elif ident == "ok":
        S.check(cs == [] and facts["f0"].get_entity().get_value() == "{s}e", "entity read")
    else:
        S.check(cs == ["ENTITY_MISSING_IDENTIFIER_ELEMENT" if ident == "none" else "ENTITY_IDENTIFIER_MISSING_SCHEME"], "an incomplete entity is reported")
        S.check(facts["f0"].get_entity() is None and facts["f0"].get_period() is not None, "an incomplete entity is no entity")
    S.cover("reached")


def measure(text):
    return el("xbrli:measure", None, text=text)


UN = nsmap("xbrli", "iso4217", "ex", p="http://example.com/p")
URIS = {"iso4217": NS["iso4217"], "ex": NS["ex"], "p": "http://example.com/p", "xbrli": NS["xbrli"]}


def units(S, p):
    """Every unit is the quotient of the products of its measures."""
    parts, want = [context_el("c0")], []
    for i in range(p["k"]):
        num, den = [], []
        shape = S.pick("shape%d" % i, p["shapes"])
        for j in range(shape[0] + shape[1]):
            pre = S.pick("p%d%d" % (i, j), p["prefixes"])
            loc = S.str("l%d%d" % (i, j), "AB", 1)
            (num if j < shape[0] else den).append((pre, loc))
        m = [measure(p.get("pad", "") + a + ":" + b + p.get("pad", "")) for a, b in num]
        d = [measure(a + ":" + b) for a, b in den]
        if d:
            halves = [el("xbrli:unitNumerator", None, *m), el("xbrli:unitDenominator", None, *d)]
            if S.pick("swap%d" % i, [0, 1]):
                halves.reverse()
            m = [el("xbrli:divide", None, *halves)]
        parts.append(el("xbrli:unit", {"id": "u%d" % i}, *m, nsmap=UN))
        parts.append(fact(i, "c0", "u%d" % i))
        parts.append(fact(i + 10, "c0", "u%d" % i))
        want.append((num, den))
    facts, cs = open_parts(*parts)
    S.check(cs == [] and len(facts) == 2 * p["k"], "no error")
    for i, (num, den) in enumerate(want):
        for j in (i, i + 10):
            u = facts["f%d" % j].get_unit()
            S.check(u.get_value() == "u%d" % i and str(u) == "u%d" % i, "a unit is called by its id")
            for got, w in ((u.get_numerators(), num), (u.get_denominators(), den)):
                S.check(len(got) == len(w), "a unit has exactly its measures")
                for g, (a, b) in zip(got, w):
                    S.check(g.uri == URIS[a] and g.local_name == b, "a measure is resolved in its namespace")
            S.check(u.is_simple() == (len(num) == 1 and len(den) == 0), "a unit is simple when it is one measure")
    S.cover("reached")


def bad_unit(S, p):
    """Units that are not units."""
    k = S.pick("kind", ["empty", "other", "mixed", "nomeasure", "onlynum", "twonum", "three", "emptynum", "odd"])

    def num():
        return el("xbrli:unitNumerator", None, measure("ex:A"))

    def den():
        return el("xbrli:unitDenominator", None, measure("ex:B"))

    kids = {
        "empty": [],
        "other": [el("ex:foo", None)],
        "mixed": [measure("ex:A"), el("xbrli:divide", None, num(), den())],
        "nomeasure": [measure(None)],
        "onlynum": [el("xbrli:divide", None, num())],
        "twonum": [el("xbrli:divide", None, num(), el("xbrli:unitNumerator", None, measure("ex:B")))],
        "three": [el("xbrli:divide", None, num(), den(), el("xbrli:unitDenominator", None, measure("ex:C")))],
        "emptynum": [el("xbrli:divide", None, el("xbrli:unitNumerator", None), den())],
        "odd": [el("xbrli:divide", None, num(), el("xbrli:other", None, measure("ex:B")))],
    }[k]
    want = {
        "empty": "XML_UNIT_ELEMENT_WITHOUT_ONE_CHILD",
        "other": "XML_INVALID_UNIT_ELEMENT_CHILDREN",
        "mixed": "XML_UNIT_ELEMENT_WITHOUT_ONE_CHILD",
        "nomeasure": "XML_MISSING_UNIT_MEASURE",
        "onlynum": "XML_DIVIDE_ELEMENT_WITHOUT_TWO_CHILDREN",
        "twonum": "XML_DUPLICATE_DIVIDE_ELEMENT_CHILDREN",
        "three": "XML_DIVIDE_ELEMENT_WITHOUT_TWO_CHILDREN",
        "emptynum": "XML_MISSING_UNIT_MEASURE",
        "odd": "XML_INVALID_DIVIDE_ELEMENT_CHILDREN",
    }[k]
    facts, cs = open_parts(context_el("c0"), unit_el("u1"), el("xbrli:unit", {"id": "u0"}, *kids, nsmap=UN), fact(0, unit="u0"), fact(1, unit="u1"))
    S.check(cs == [want], "a malformed unit is reported")
    S.check("f0" not in facts, "a malformed unit is not attached to a fact")
    S.check(facts["f1"].get_unit().get_value() == "u1" and facts["f1"].get_unit().is_simple(), "other units are kept")
    S.cover("reached")


def dim(kind, dname, value):
    if kind == "explicit":
        return el("xbrldi:explicitMember", {"dimension": "ex:" + dname}, text="ex:" + value, nsmap=nsmap("xbrldi", "ex"))
    return el("xbrldi:typedMember", {"dimension": "ex:" + dname}, el("ex:dom", None, text=value), nsmap=nsmap("xbrldi", "ex"))


def dimensions(S, p):
    """Explicit and typed dimensions, in the segment or the scenario."""
    parts, want = [unit_el("u0")], []
    for i in range(p["k"]):
        seg, sce, w = [], [], {}
        for n in p["dims"]:
            if not S.pick("has%s%d" % (n, i), [0, 1]):
                continue
            if n == "T":
                v = S.str("t%d" % i, p.get("talpha", "aAb "), 1)
                x = dim("typed", "T", v)
            else:
                v = "M" + S.str("m%s%d" % (n, i), "12", 1)
                x = dim("explicit", n, v)
            w[n] = v
            (sce if S.pick("in%s%d" % (n, i), p.get("places", [0, 1])) else seg).append(x)
        parts.append(context_el("c%d" % i, segment=seg, scenario=sce))
        parts.append(fact(i, "c%d" % i))
        want.append(w)
    facts, cs = open_parts(*parts)
    S.check(cs == [] and len(facts) == p["k"], "no error")
    for i, w in enumerate(want):
        x = facts["f%d" % i]
        names = [a.get_name() for a in x.get_aspects() if not a.is_core()]
        S.check(sorted(names) == sorted("ex:" + n for n in w), "a fact has exactly the dimensions of its context")
        S.check(x.is_core() == (not w), "a fact is core when it has no dimension")
        for n, v in w.items():
            c = x.get_characteristic(Aspect("ex:" + n, []))
            S.check(c.get_dimension().get_name().local_name == n and c.get_aspect().get_name() == "ex:" + n, "the dimension of a member")
            if n == "T":
                S.check(c.get_value() == v and str(c) == v, "a typed dimension has its value")
            else:
                S.check(c.get_member().get_name().local_name == v and c.get_member().get_name().uri == NS["ex"], "an explicit dimension has its member")
        row = x.convert_to_dict()
        for n in p["dims"]:
            S.check(row.get("ex:" + n) == (None if n not in w else w[n] if n == "T" else "ex:" + w[n]), "the fact as a dictionary states its dimensions")
    if p["k"] == 2:
        for n in p["dims"]:
            if n in want[0] and n in want[1]:
                a, b = [facts["f%d" % i].get_characteristic(Aspect("ex:" + n, [])) for i in (0, 1)]
                S.check((a == b) == (want[0][n] == want[1][n]), "dimension values are equal exactly when the members are")
                S.cover("shared")
    S.cover("reached")


def many(S, p):
    """Six contexts of up to six dimensions, six units and twelve facts."""
    names = ["D1", "D2", "T", "D3", "D4", "U"]
    typed = dict(DIMENSION)
    typed["xbrldt:typedDomainRef"] = "#ex_dom"
    decl = [("ex_A", "A")] + [("ex_" + n, n, typed if n in "TU" else DIMENSION) for n in names] + [("ex_M%d" % i, "M%d" % i, MEMBER) for i in range(8)]
    m, t = "M" + S.str("m", "01234567", 1), S.str("t", "aA b", 1, 2)
    at, back = S.pick("at", p["at"]), S.pick("back", [0, 1])
    S.assume(t.strip() == t)
    parts, want = [], []
    for i in range(6):
        w = {}
        for j, n in enumerate(names):
            if j < i + 1 or (i, j) in ((at, 4), (at, 5)):
                w[n] = (t if (i, j) == (at, 5) else "v%d%d" % (i, j)) if n in "TU" else m if (i, j) == (at, 4) else "M%d" % ((i + j) % 8)
        xs = [dim("typed" if n in "TU" else "explicit", n, v) for n, v in w.items()]
        if back:
            xs = xs[::-1]
        parts.append(context_el("c%d" % i, scheme="http://s%d" % (i % 2), ident="e%d" % (i % 3), segment=xs[:3] or None, scenario=xs[3:] or None))
        parts.append(el("xbrli:unit", {"id": "u%d" % i}, *[measure("ex:N%d%d" % (i, k)) for k in range(i + 1)], nsmap=UN))
        want.append(w)
    facts = [fact(i, "c%d" % (i % 6), "u%d" % ((i * 5 + i // 6) % 6)) for i in range(12)]
    f = open_xml([("i.xml", instance(*(facts + parts if back else parts + facts))), ("ex.xsd", schema(NS["ex"], *decl, extra=[el("xs:element", {"id": "ex_dom", "name": "dom", "type": "xs:string"})]))])
    got = {x.get_id(): x for x in f.get_all_facts()}
    S.check(codes(f) == [] and len(got) == 12, "no error")
    for i in range(12):
        x, w, u = got["f%d" % i], want[i % 6], (i * 5 + i // 6) % 6
        S.check(x.get_entity().get_value() == "{http://s%d}e%d" % (i % 6 % 2, i % 6 % 3), "each fact has the entity of its context")
        S.check(sorted(a.get_name() for a in x.get_aspects() if not a.is_core()) == sorted("ex:" + n for n in w), "a fact has exactly the dimensions of its context")
        for n, v in w.items():
            c = x.get_characteristic(Aspect("ex:" + n, []))
            S.check((c.get_value() if n in "TU" else c.get_member().get_name().local_name) == v, "a dimension has its member or value")
        S.check(str(x.get_unit()) == "u%d" % u and [g.local_name for g in x.get_unit().get_numerators()] == ["N%d%d" % (u, k) for k in range(u + 1)], "a unit has exactly its measures")
    S.cover("reached")


def bad_dimension(S, p):
    """Malformed dimensions are reported and left out."""
    where = S.pick("where", ["segment", "scenario"])
    good = S.pick("good", [0, 1])
    k = S.pick("kind", ["nodim", "nomember", "empty", "notmember", "tnodim", "tnochild", "ttwo", "tempty", "other", "concept"])
    nm = nsmap("xbrldi", "ex")
    bad = {
        "nodim": dim("explicit", "Nope", "M1"),
        "nomember": dim("explicit", "D1", "Nope"),
        "empty": el("xbrldi:explicitMember", {"dimension": "ex:D1"}, nsmap=nm),
        "notmember": dim("explicit", "D1", "D2"),
        "concept": dim("explicit", "A", "M1"),
        "tnodim": dim("typed", "Nope", "a"),
        "tnochild": el("xbrldi:typedMember", {"dimension": "ex:T"}, nsmap=nm),
        "ttwo": el("xbrldi:typedMember", {"dimension": "ex:T"}, el("ex:dom", None, text="a"), el("ex:dom", None, text="b"), nsmap=nm),
        "tempty": el("xbrldi:typedMember", {"dimension": "ex:T"}, el("ex:dom", None), nsmap=nm),
        "other": el("ex:foo", None, nsmap=nm),
    }[k]
    want = {
        "nodim": "INVALID_EXPLICIT_DIMENSION_VALUE",
        "concept": "INVALID_EXPLICIT_DIMENSION_VALUE",
        "nomember": "INVALID_EXPLICIT_DIMENSION_MEMBER",
        "notmember": "INVALID_EXPLICIT_DIMENSION_MEMBER",
        "empty": "MISSING_EXPLICIT_DIMENSION_MEMBER",
        "tnodim": "INVALID_TYPED_DIMENSION_VALUE",
        "tnochild": "NO_TYPED_DIMENSION_ELEMENT_CHILDREN",
        "ttwo": "MULTIPLE_TYPED_DIMENSION_ELEMENT_CHILDREN",
        "tempty": "MISSING_TYPED_DIMENSION_VALUE",
        "other": "INVALID_DIMENSION_TYPE",
    }[k]
    ds = [bad] + ([dim("explicit", "D2", "M2")] if good else [])
    if S.pick("order", [0, 1]):
        ds.reverse()
    facts, cs = open_parts(unit_el("u0"), context_el("c0", **{where: ds}), fact(0))
    S.check(cs == [want], "a malformed dimension is reported")
    names = [a.get_name() for a in facts["f0"].get_aspects() if not a.is_core()]
    S.check([n for n in names if n != "ex:T"] == (["ex:D2"] if good else []), "other dimensions are kept, the malformed one is not")
    S.check("ex:T" not in names or k == "ttwo", "a malformed typed dimension is left out")
    S.cover("reached")


def shared(S, p):
    """Facts that share contexts and units do not leak into each other."""
    inl = p["inline"]
    ctxs = [context_el("c0", ident="e0"), context_el("c1", instant("2021-01-01"), ident="e1", segment=[dim("explicit", "D1", "M1")])]
    units = [unit_el("u0", "ex:X"), unit_el("u1", "ex:Y")]
    els, want = [], []
    for i in range(p["k"]):
        c = "c" + S.str("c%d" % i, "01", 1)
        has = S.pick("hasunit%d" % i, [1, 0])
        u = "u" + S.str("u%d" % i, p["units"], 1) if has else None
        n = S.pick("n%d" % i, ["A", "B"])
        a = {"id": "f%d" % i, "contextRef": c, "unitRef": u}
        if inl:
            els.append(el("ix:nonFraction", dict(a, name="ex:" + n), text="1"))
        else:
            els.append(el("ex:" + n, a, text="1"))
        want.append((c, u, n))
    if inl:
        f = open_xhtml([("d.htm", inline(els, ctxs + units)), ("ex.xsd", taxonomy())])
    else:
        f = open_xml([("i.xml", instance(*ctxs, *units, *els)), ("ex.xsd", taxonomy())])
    cs = codes(f)
    facts = {x.get_id(): x for x in f.get_all_facts()}
    nerr = 0
    for i, (c, u, n) in enumerate(want):
        bad = u is not None and u == "u2"
        if bad or u is None and inl:
            nerr += 1
        if bad and not inl:
            S.check("f%d" % i not in facts, "a fact with an unknown unit is left out")
            continue
        x = facts["f%d" % i]
        S.check(x.get_concept().get_name().local_name == n, "the concept of a fact")
        S.check(x.get_entity().get_value() == ("{http://s}e0" if c == "c0" else "{http://s}e1"), "each fact has its own entity")
        S.check(str(x.get_period()) == ("2020-12-31" if c == "c0" else "2021-01-01"), "each fact has its own period")
        S.check(x.is_core() == (c == "c0"), "each fact has its own dimensions")
        if u is None or bad:
            S.check(x.get_unit() is None, "a fact without a known unit has no unit")
            S.cover("nounit")
        else:
            S.check(x.get_unit() is not None and x.get_unit().get_value() == u, "each fact has its own unit")
            S.check(x.get_unit().get_numerators()[0].local_name == ("X" if u == "u0" else "Y"), "each fact has the measures of its unit")
    S.check(len(cs) == nerr, "only unknown and missing units are reported")
    S.cover("reached")


def instances(S, p):
    """Ids are those of the own document, and prefixes mean what they mean where they stand."""
    trees, want = [], {}
    for k in range(p["k"]):
        ns = S.pick("p%d" % k, ["ex", "ey"])
        m, d, typed = S.pick("member%d" % k, ["M1", "M2"]), S.pick("d%d" % k, ["D1", "D2"]), S.str("t%d" % k, "01", 1)
        e, u = S.str("e%d" % k, "ab", 1), S.pick("u%d" % k, ["X", "Y"])
        bound = {"p": NS[ns], "xbrldi": NS["xbrldi"]}
        dims = [el("xbrldi:explicitMember", {"dimension": "p:" + d}, text="p:" + m, nsmap=bound)]
        if p.get("typed"):
            dims.append(el("xbrldi:typedMember", {"dimension": "p:T"}, el("ex:dom", None, text=typed), nsmap=bound))
        for x in dims:
            assert x.nsmap["p"] == NS[ns]
        unit = el("xbrli:unit", {"id": "u0"}, el("xbrli:measure", None, text="p:" + u), nsmap={"p": NS[ns], "xbrli": NS["xbrli"]})
        entity = el("xbrli:entity", None, el("xbrli:identifier", {"scheme": "http://s"}, text=e))
        root = el("xbrli:xbrl", None, nsmap=dict(nsmap(*INST_NS), p=NS[ns]))
        segment = etree.SubElement(entity, q("xbrli:segment"))
        for x in dims:
            segment.append(x)
        root.append(el("xbrli:context", {"id": "c0"}, entity, instant("202%d-01-01" % k)))
        root.append(unit)
        root.append(el("ex:A", {"id": "f%d" % k, "contextRef": "c0", "unitRef": "u0"}, text="1"))
        trees.append(("i%d.xml" % k, root))
        want["f%d" % k] = (NS[ns], m, d, typed, e, u)
    typed = dict(DIMENSION)
    typed["xbrldt:typedDomainRef"] = "ex.xsd#ex_dom"
    for n in ("ex", "ey"):
        trees.append((n + ".xsd", taxonomy(n)))
    f = open_xml(trees)
    S.check(codes(f) == [], "no error")
    facts = {x.get_id(): x for x in f.get_all_facts()}
    S.check(len(facts) == p["k"], "every instance has its fact")
    for k in range(p["k"]):
        x = facts["f%d" % k]
        uri, m, d, t, e, u = want["f%d" % k]
        S.check_eq(x.get_entity().get_value(), "{http://s}" + e, "a fact has the entity of the context of its document")
        S.check(str(x.get_period()) == "202%d-01-01" % k, "a fact has the period of the context of its document")
        S.check([y.clark_notation() for y in x.get_unit().get_numerators()] == ["{" + uri + "}" + u], "a fact has the unit of its document")
        chars = [x.get_characteristic(a) for a in x.get_aspects() if not a.is_core()]
        S.check(len(chars) == (2 if p.get("typed") else 1), "a fact has exactly the dimensions of its context")
        for c in chars:
            S.check(x.get_characteristic(c.get_aspect()) is c, "a dimension is found by its aspect")
            if isinstance(c.get_value(), str):
                S.check(c.get_dimension().get_name().clark_notation() == "{" + uri + "}T", "the typed dimension of the own context")
                S.check_eq(c.get_value(), t, "the value of the own context")
            else:
                S.check(c.get_dimension().get_name().clark_notation() == "{" + uri + "}" + d, "the dimension of the own context")
                S.check(c.get_value().get_name().clark_notation() == "{" + uri + "}" + m, "the member of the own context")
    if p["k"] == 2:
        a, b = [{y.get_dimension().get_name().clark_notation(): y for y in [facts[i].get_characteristic(z) for z in facts[i].get_aspects() if not z.is_core()]} for i in ("f0", "f1")]
        for n in a:
            if n in b:
                S.check((a[n] == b[n]) == (str(a[n].get_value()) == str(b[n].get_value())), "dimensions are equal exactly when dimension and value are")
                S.cover("same dimension")
        S.cover("two")
    S.cover("reached")


SH = [(1, 0), (2, 0), (1, 1), (2, 1), (1, 2)]
HARNESSES = [
    Harness(entity, quick=[dict(k=1, n=2, alpha="01a./"), dict(k=2, n=1, alpha="01}"), dict(k=2, n=2, alpha="0"), dict(k=1, n=1, alpha="01", pad="\n ")], thorough=[dict(k=2, n=2, alpha="01} "[:3]), dict(k=3, n=1, alpha="012")], covers=["two", "reached"], bounds="up to 2 (3) contexts, schemes and identifiers of up to 2 free characters"),
    Harness(many, quick=[dict(at=[0, 5])], thorough=[dict(at=list(range(6)), _split={"at": 6})], covers=["reached"], bounds="six contexts of one to six dimensions, six units of one to six measures, twelve facts, one member and one typed value free"),
    Harness(entity_shape, covers=["reached"], bounds="every combination of missing entity, identifier, scheme and period"),
    Harness(units, quick=[dict(k=1, shapes=SH, prefixes=["iso4217", "p"]), dict(k=2, shapes=[(1, 0), (1, 1)], prefixes=["ex"]), dict(k=1, shapes=[(1, 0)], prefixes=["ex", "p", "xbrli"], pad=" \n")], thorough=[dict(k=1, shapes=SH + [(3, 0), (2, 2)], prefixes=["iso4217", "p"]), dict(k=2, shapes=SH[:4], prefixes=["ex", "p"])], covers=["reached"], bounds="up to 2 units of up to 3 (4) measures as product or quotient"),
    Harness(bad_unit, covers=["reached"], bounds="9 kinds of malformed units"),
    Harness(dimensions, quick=[dict(k=1, dims=["D1", "D2", "T"]), dict(k=2, dims=["D1"]), dict(k=2, dims=["T"]), dict(k=2, dims=["D1", "D2"], places=[0])], thorough=[dict(k=2, dims=["D1", "D2", "T"], places=[0], _split=dict(hasD10=2, hasT0=2, hasD21=2)), dict(k=2, dims=["D1", "T"]), dict(k=3, dims=["D1"])], covers=["shared", "reached"], bounds="up to 2 (3) contexts over two explicit and one typed dimension in segment and scenario"),
    Harness(shared, quick=[dict(k=2, inline=False, units="012"), dict(k=2, inline=True, units="012")], thorough=[dict(k=3, inline=False, units="01"), dict(k=3, inline=True, units="01")], split=dict(n0=2, hasunit0=2), covers=["reached", "nounit"], bounds="2 (3) facts of an XML or inline instance over 2 contexts and 2 units, unit missing or unknown"),
    Harness(instances, quick=[dict(k=2), dict(k=1, typed=True)], thorough=[dict(k=2, typed=True, _split=dict(p0=2, p1=2, member0=2)), dict(k=1, typed=True)], covers=["two", "same dimension", "reached"], bounds="%(k)d instances that use the same ids and one prefix with two meanings"),
    Harness(bad_dimension, covers=["reached"], bounds="10 kinds of malformed dimensions, alone or with a valid one, in segment and scenario"),
]
ASSUMPTIONS = ["up to two instance documents"]
