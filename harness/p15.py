"""P15: what is reported about the problems of a filing."""
from brel.brel_filing import Filing
from brel.errors.area import Area
from brel.errors.error_code import ErrorCode
from brel.errors.error_instance import ErrorInstance
from brel.errors.severity import Severity
from harness.lib import *
from sx.api import Harness

PROPERTY = "P15"
TEXT = "a{}0"
HEADER = "IXBRL_REFERENCES_ELEMENT_WITHOUT_CHILDREN"


def template(code):
    """The message of a code: [text, placeholder, text, ...]."""
    t = error_factory_registry[code]().get_message()
    out, text, i = [], "", 0
    while i < len(t):
        if t[i] in "{}" and t[i : i + 2] == t[i] * 2:
            text += t[i]
            i += 2
        elif t[i] == "{":
            j = t.index("}", i)
            out += [text, t[i + 1 : j]]
            text, i = "", j + 1
        else:
            text += t[i]
            i += 1
    return out + [text]


def message(code, values):
    parts = template(code)
    out = parts[0]
    for k in range(1, len(parts), 2):
        out = out + values[parts[k]] + parts[k + 1]
    return out


def place(e):
    """Where an element is: its own tag and the positions of its ancestors and itself."""
    if e is None:
        return None
    tag, out = e.tag, []
    while e.getparent() is not None:
        out.append(e.getparent().index(e))
        e = e.getparent()
    return tag, list(reversed(out))


def reported(filing):
    return [e for e in filing.get_all_errors()]


def name_of(e):
    return codes_of([e])[0]


def codes_of(errors):
    class All:
        def get_all(self):
            return errors

    return codes(All())


def compare(S, f, want, ignore=()):
    """want: [(code name, values, place)]"""
    got = [e for e in reported(f) if name_of(e) not in ignore]
    # a problem that is reported twice is still one problem
    got = [e for k, e in enumerate(got) if k == 0 or not (name_of(e) == name_of(got[k - 1]) and e.get_context() is got[k - 1].get_context() and e.get_context() is not None)]
    S.observe("codes", codes_of(got))
    S.check(codes_of(got) == [w[0] for w in want], "exactly the problems of the documents are reported, each with its code")
    for e, (code, values, where) in zip(got, want):
        S.check_eq(e.get_message(), message(ErrorCode[code], values), "the message names what is wrong, as it is written: " + code)
        S.check(place(e.get_context()) == where, "the element with the problem is the context of the error: " + code)
        S.check(str(e) == e.get_full_error_code() + ": " + e.get_message(), "an error is shown with its code and its message")


def compare_all(S, f, want):
    """Several problems, in whatever order they are reported."""
    got = []
    for e in reported(f):
        if not any(name_of(e) == name_of(o) and e.get_context() is o.get_context() and e.get_context() is not None for o in got):
            got.append(e)
    S.observe("codes", sorted(codes_of(got)))
    S.check_eq(sorted(codes_of(got)), sorted(w[0] for w in want), "each problem of the documents is reported, and no other")
    for code, values, where in want:
        mine = [e for e in got if name_of(e) == code and place(e.get_context()) == where]
        S.check(len(mine) == 1, "each element with a problem is the context of its own error: " + code)
        S.check_eq(mine[0].get_message(), message(ErrorCode[code], values), "the message names what is wrong with this element: " + code)


# placeholders that name two things of a kind, and what the message calls each
ROLES = {
    "DURATION_PERIOD_START_AFTER_END": {"start_date": "start date", "end_date": "end date"},
    "INVALID_EXPLICIT_DIMENSION_MEMBER": {"member": "member", "dimension": "explicit dimension"},
    "IXBRL_INVALID_FACT_UNIT_ID": {"unit_id": "unit", "fact_id": "fact"},
    "IXBRL_FACT_INVALID_CONCEPT": {"fact_id": "id", "concept_name": "concept name"},
    "DATE_DOES_NOT_MATCH_EXPECTED_FORMAT": {"date": "date", "format": "format"},
    "NUMBER_DOES_NOT_MATCH_EXPECTED_FORMAT": {"number": "number", "format": "format"},
    "IXBRL_INVALID_FOOTNOTE_ROLE": {"id": "id", "role": "footnoterole"},
    "DUPLICATE_LINKBASE_ARC": {"arc_from": "from", "arc_to": "to"},
    "FACT_UNIT_MISMATCH": {"fact_unit": "fact has unit", "context_unit": "should have unit"},
    "FACT_CONCEPT_MISMATCH": {"fact_concept": "fact has concept", "context_concept": "should have concept"},
    "IXBRL_INVALID_CONTINUATION_ID": {"id": "id", "element_id": "fact or footnote with id"},
    "REFERENCED_SCHEMA_ELEMENT_NOT_FOUND": {"ref_id": "id", "ref_schema_name": "schema with name"},
    "INVALID_CONCEPT_PERIOD_TYPE": {"period_type": "period type", "concept_name": "concept"},
    "INVALID_CONCEPT_BALANCE_TYPE": {"balance_type": "balance type", "concept_name": "concept"},
    "INVALID_CONCEPT_NILLABLE_VALUE": {"nillable_value": "nillable value", "concept_name": "concept"},
}
# what the message of a code without placeholders speaks of
SUBJECT = {
    "DURATION_PERIOD_MISSING_START_DATE": "start date",
    "DURATION_PERIOD_MISSING_END_DATE": "end date",
    "MISSING_CONTEXT_PERIOD": "period",
    "MISSING_CONTEXT_ENTITY": "entity",
    "ENTITY_MISSING_IDENTIFIER_ELEMENT": "identifier",
    "ENTITY_IDENTIFIER_MISSING_SCHEME": "scheme",
    "IXBRL_CONTEXT_WITHOUT_ID": "context",
    "IXBRL_UNIT_WITHOUT_ID": "unit",
    "IXBRL_CONTINUATION_WITHOUT_ID": "continuation",
    "IXBRL_FOOTNOTE_WITHOUT_ID": "footnote",
    "IXBRL_RELATIONSHIP_WITHOUT_FROMREFS": "fromrefs",
    "IXBRL_RELATIONSHIP_WITHOUT_TOREFS": "torefs",
    "ROLEREF_MISSING_HREF_ATTRIBUTE": "href",
    "ROLEREF_MISSING_ROLE_URI_ATTRIBUTE": "roleuri",
    "MISSING_LINK_ROLE": "role",
    "MISSING_LABEL_LANGUAGE": "label",
    "XML_MISSING_FOOTNOTE_LANGUAGE": "footnote",
    "XML_MISSING_UNIT_MEASURE": "measure",
}
MEMBERS = [c for c in ErrorCode if c.name != "rest"]


def messages(S, p):
    """Every code: the message holds the values given to it; codes tell problems apart."""
    k = S.pick("code", list(range(p["lo"], min(p["hi"], len(MEMBERS)))))
    code = MEMBERS[k]
    S.check(code in error_factory_registry, "every problem that can be reported has a message: " + code.name)
    parts = template(code)
    names = [parts[i] for i in range(1, len(parts), 2)]
    values = {}
    for n in names:
        if n not in values:
            values[n] = S.str("value%d" % len(values), TEXT, 0, p["n"])
    ctx = FilingContext()
    repo = ctx.get_error_repository()
    where = el("ex:here")
    if S.pick("given", [True, False]) or not names:
        repo.insert(code, where, **values)
        f = Filing(ctx)
        S.check(len(f.get_all_errors()) == 1, "one problem is one error")
        e = f.get_all_errors()[0]
        S.check_eq(e.get_message(), message(code, values), "the message holds the values given, as they are")
        S.check(e.get_context() is where, "the element given is the context of the error")
        full = e.get_full_error_code()
        S.check(full.startswith(e.get_severity().value + "-" + e.get_area().value + "-" + e.get_numeric_code()), "the code is made of severity, area and number")
        for other in MEMBERS:
            if other is not code and other in error_factory_registry:
                o = error_factory_registry[other]()
                S.check((o.get_area(), o.get_numeric_code()) != (e.get_area(), e.get_numeric_code()), "no two problems have the same area and number")
        low = [x.lower() for x in parts]
        for n, word in ROLES.get(code.name, {}).items():
            before = "".join([low[i] for i in range(0, low.index(n, 1), 2)])
            S.check(word in low[low.index(n, 1) - 1] or word in before, "a value stands where the message says what it is")
            S.check(word in low[low.index(n, 1) - 1], "a value stands right after what it is")
        S.check(SUBJECT.get(code.name, "") in "".join(low), "the message speaks of what is missing")
        S.cover("message")
    else:
        drop = S.pick("drop", names)
        S.check(raises(repo.insert, code, where, **{n: v for n, v in values.items() if n != drop}) == "ValueError", "a message is not shown with a gap")
        S.check(repo.get_all() == [], "no error without its message")
        S.cover("gap")


def selection(S, p):
    """Errors by severity and by area."""
    ctx = FilingContext()
    repo = ctx.get_error_repository()
    f = Filing(ctx)
    S.check(not f.has_any_errors(), "no errors without problems")
    made = []
    for i in range(p["n"]):
        sev = S.pick("severity%d" % i, list(Severity))
        area = S.pick("area%d" % i, p["areas"])
        e = ErrorInstance(sev, Area[area], "9%d" % i, "m%d" % i)
        if S.pick("if%d" % i, [None, True, False][: p.get("ifs", 3)]) is None:
            repo.insert_premade(e)
            made.append((e, sev, area))
        elif S.pick("cond%d" % i, [True, False]):
            repo.upsert_if(True, e)
            made.append((e, sev, area))
        else:
            repo.upsert_if(False, e)

    def same(a, b):
        return len(a) == len(b) and all(x is y for x, y in zip(a, b))

    S.check(f.has_any_errors() == (len(made) > 0), "a filing has errors if any was reported")
    S.check(same(f.get_all_errors(), [e for e, s, a in made]), "all errors are in the order of their report")
    S.check(same(f.get_errors(), [e for e, s, a in made if s is Severity.ERROR]), "errors are those of severity error")
    S.check(same(f.get_warnings(), [e for e, s, a in made if s is Severity.WARNING]), "warnings are those of severity warning")
    S.check(same(f.get_infos(), [e for e, s, a in made if s is Severity.INFO]), "notes are those of severity info")
    for sev in Severity:
        S.check(same(f.get_errors_by_severity(sev), [e for e, s, a in made if s is sev]), "selection by severity")
    for area in Area:
        S.check(same(f.get_errors_by_area(area), [e for e, s, a in made if a == area.name]), "selection by area")
    S.cover("some" if made else "none")


# documents with one problem ------------------------------------------------


def taxonomy(*more):
    return schema(
        NS["ex"],
        ("ex_A", "A"),
        ("ex_S", "S", {"type": "xbrli:stringItemType", "nillable": "false"}),
        ("ex_D", "D", {"substitutionGroup": "xbrldt:dimensionItem", "abstract": "true"}),
        ("ex_T", "T", {"substitutionGroup": "xbrldt:dimensionItem", "abstract": "true", "xbrldt:typedDomainRef": "#ex_S"}),
        ("ex_M", "M", {"type": "xbrli:stringItemType", "abstract": "true"}),
        extra=more,
    )


def links():
    """A hypercube with a dimension D with a member M and a typed dimension T."""
    return None


def xml_case(S, p, kind, v, i=""):
    """(instance, [(code, values, element)])"""
    cid, uid = "c" + i + v, "u" + i + v
    fact = lambda **a: el("ex:A", dict({"id": "f" + i, "contextRef": cid, "unitRef": uid, "decimals": "0"}, **a), text="1")
    unit = unit_el(uid)
    ctx = context_el(cid)
    if kind == "concept":
        x = el("ex:Q", {"contextRef": cid}, text="1")
        return instance(ctx, unit, x), [("XML_FACT_INVALID_CONCEPT", {"concept_name": q("ex:Q")}, x)]
    if kind == "context":
        x = fact(contextRef="d" + v)
        return instance(ctx, unit, x), [("XML_INVALID_FACT_CONTEXT_ID", {"context_id": "d" + v}, x)]
    if kind == "unit":
        x = fact(unitRef="d" + v)
        return instance(ctx, unit, x), [("XML_INVALID_FACT_UNIT_ID", {"unit_id": "d" + v}, x)]
    if kind == "decimals":
        x = fact(decimals="x" + v)
        return instance(ctx, unit, x), [("INVALID_DECIMALS_ATTRIBUTE_VALUE", {"decimals": "x" + v}, x)]
    if kind == "precision":
        x = fact(decimals=None, precision="x" + v)
        return instance(ctx, unit, x), [("INVALID_PRECISION_ATTRIBUTE_VALUE", {"precision": "x" + v}, x)]
    if kind == "value":
        x = el("ex:S", {"contextRef": cid})
        return instance(ctx, x), [("MISSING_FACT_VALUE", {"concept": q("ex:S")}, x)]
    if kind == "period":
        ctx.remove(ctx[1])
        return instance(ctx, unit, fact()), [("MISSING_CONTEXT_PERIOD", {}, ctx)]
    if kind == "entity":
        ctx.remove(ctx[0])
        return instance(ctx, unit, fact()), [("MISSING_CONTEXT_ENTITY", {}, ctx)]
    if kind == "date":
        ctx[1][0].text = "2020-13-" + v
        return instance(ctx, unit, fact()), [("INVALID_CONTEXT_PERIOD_DATE", {"date": "2020-13-" + v}, ctx[1][0])]
    if kind == "start":
        ctx[1].remove(ctx[1][0])
        ctx[1].append(el("xbrli:endDate", None, text="2020-01-01"))
        return instance(ctx, unit, fact()), [("DURATION_PERIOD_MISSING_START_DATE", {}, ctx[1])]
    if kind == "end":
        ctx[1].remove(ctx[1][0])
        ctx[1].append(el("xbrli:startDate", None, text="2020-01-01"))
        return instance(ctx, unit, fact()), [("DURATION_PERIOD_MISSING_END_DATE", {}, ctx[1])]
    if kind == "order":
        a, b = "2020-03-1" + S.str("da" + i, "0123456789", 1), "2020-02-1" + S.str("db" + i, "0123456789", 1)
        c = context_el(cid, duration(a, b))
        return instance(c, unit, fact()), [("DURATION_PERIOD_START_AFTER_END", {"start_date": a, "end_date": b}, c[1][0])]
    if kind == "identifier":
        ctx[0].remove(ctx[0][0])
        return instance(ctx, unit, fact()), [("ENTITY_MISSING_IDENTIFIER_ELEMENT", {}, ctx[0])]
    if kind == "scheme":
        c = context_el(cid, scheme=None)
        return instance(c, unit, fact()), [("ENTITY_IDENTIFIER_MISSING_SCHEME", {}, c[0])]
    if kind == "ident":
        c = context_el(cid, ident=None)
        return instance(c, unit, fact()), [("ENTITY_IDENTIFIER_MISSING_VALUE", {}, c[0][0])]
    if kind == "children":
        unit.append(el("xbrli:divide"))
        return instance(ctx, unit, fact()), [("XML_UNIT_ELEMENT_WITHOUT_ONE_CHILD", {"id": uid, "child_count": "2"}, unit)]
    if kind == "child":
        unit.remove(unit[0])
        unit.append(el("xbrli:other"))
        return instance(ctx, unit, fact()), [("XML_INVALID_UNIT_ELEMENT_CHILDREN", {"id": uid, "child_tag": q("xbrli:other")}, unit)]
    if kind == "measure":
        unit[0].text = None
        return instance(ctx, unit, fact()), [("XML_MISSING_UNIT_MEASURE", {}, unit[0])]
    if kind.startswith("divide"):
        m = lambda: el("xbrli:measure", None, text="iso4217:USD")
        tags = {"divide-one": ["xbrli:unitNumerator"], "divide-twice": ["xbrli:unitDenominator", "xbrli:unitDenominator"], "divide-other": ["xbrli:unitNumerator", "xbrli:other"]}[kind]
        unit.remove(unit[0])
        unit.append(el("xbrli:divide", None, *[el(t, None, m()) for t in tags]))
        code, values = {
            "divide-one": ("XML_DIVIDE_ELEMENT_WITHOUT_TWO_CHILDREN", {"child_count": "1"}),
            "divide-twice": ("XML_DUPLICATE_DIVIDE_ELEMENT_CHILDREN", {"tag": q("xbrli:unitDenominator")}),
            "divide-other": ("XML_INVALID_DIVIDE_ELEMENT_CHILDREN", {"child_tag": q("xbrli:other")}),
        }[kind]
        return instance(ctx, unit, fact()), [(code, dict(values, id=uid), unit)]
    x, code, values = {
        "dimension-kind": (el("xbrldi:other"), "INVALID_DIMENSION_TYPE", {"dimension_type": q("xbrldi:other")}),
        "explicit": (el("xbrldi:explicitMember", {"dimension": "ex:Q"}, text="ex:M"), "INVALID_EXPLICIT_DIMENSION_VALUE", {"dimension": "Q"}),
        "member": (el("xbrldi:explicitMember", {"dimension": "ex:D"}, text="ex:Q"), "INVALID_EXPLICIT_DIMENSION_MEMBER", {"member": "ex:Q", "dimension": "ex:D"}),
        "no-member": (el("xbrldi:explicitMember", {"dimension": "ex:D"}), "MISSING_EXPLICIT_DIMENSION_MEMBER", {"dimension": "D"}),
        "typed": (el("xbrldi:typedMember", {"dimension": "ex:Q"}, el("ex:S", None, text=v)), "INVALID_TYPED_DIMENSION_VALUE", {"dimension": "ex:Q"}),
        "typed-none": (el("xbrldi:typedMember", {"dimension": "ex:T"}), "NO_TYPED_DIMENSION_ELEMENT_CHILDREN", {"dimension": "ex:T"}),
        "typed-two": (el("xbrldi:typedMember", {"dimension": "ex:T"}, el("ex:S", None, text="v"), el("ex:S", None, text=v)), "MULTIPLE_TYPED_DIMENSION_ELEMENT_CHILDREN", {"dimension": "ex:T"}),
        "typed-empty": (el("xbrldi:typedMember", {"dimension": "ex:T"}, el("ex:S")), "MISSING_TYPED_DIMENSION_VALUE", {"dimension": "ex:T"}),
    }[kind]
    c = context_el(cid, segment=[x]) if S.pick("where" + i, ["segment", "scenario"]) == "segment" else context_el(cid, scenario=[x])
    return instance(c, unit, fact()), [(code, values, x)]


XML = (
    "concept context unit decimals precision value period entity date start end order identifier scheme ident children child measure divide-one divide-twice divide-other "
    "dimension-kind explicit member no-member typed typed-none typed-two typed-empty"
).split()


def xml(S, p):
    """XML instances with one problem among good facts."""
    v = S.str("v", TEXT, 0, p["n"])
    kind = S.pick("kind", p["kinds"])
    doc, want = xml_case(S, p, kind, v)
    if S.pick("more", [False, True]):
        # nothing is reported about a good fact before it
        doc.insert(0, el("ex:A", {"id": "g", "contextRef": "cg", "unitRef": "ug", "decimals": "2"}, text="2"))
        doc.insert(0, unit_el("ug"))
        doc.insert(0, context_el("cg"))
    want = [(c, values, place(x)) for c, values, x in want]
    f = open_xml([("i.xml", doc), ("ex.xsd", taxonomy())])
    compare(S, f, want)
    S.cover(kind)


def xml_pairs(S, p):
    """XML instances with two problems, of which the second does not hide the first."""
    v = S.str("v", TEXT, 0, p["n"])
    k = S.pick("kind", list(range(len(XML))))
    a, b = XML[k], XML[(k + S.pick("next", p["next"])) % len(XML)]
    doc, want = xml_case(S, p, a, v)
    more, want2 = xml_case(S, p, b, v, "2")
    for x in list(more):
        doc.append(x)
    want = [(c, values, place(x)) for c, values, x in want + want2]
    f = open_xml([("i.xml", doc), ("ex.xsd", taxonomy())])
    compare_all(S, f, want)
    S.cover("same" if a == b else "different")


def linkbase(*children):
    return el("link:linkbase", None, *children, nsmap=nsmap("link", "xlink", "xsi"))


def loc(label, href):
    return el("link:loc", {"xlink:type": "locator", "xlink:label": label, "xlink:href": href})


def arc(tag, role, a, b):
    return el(tag, {"xlink:type": "arc", "xlink:arcrole": "http://www.xbrl.org/2003/arcrole/" + role, "xlink:from": a, "xlink:to": b, "order": "1"})


def link_case(S, p, kind, v, i=""):
    """(linkbase, more parts of the schema, [(code, values, document, element)])"""
    R = "http://r" + i + v
    la, lb = "a" + v, "b" + v
    ext = lambda tag, role, *c: el(tag, {"xlink:type": "extended", "xlink:role": role}, *c)
    lab = lambda **a: el("link:label", dict({"xlink:type": "resource", "xlink:label": lb, "xlink:role": "http://www.xbrl.org/2003/role/label", "xml:lang": "en"}, **a), text="L")
    if kind == "locator":
        x = loc(la, "ex.xsd#q" + v)
        doc = linkbase(ext("link:labelLink", R, x, lab(), arc("link:labelArc", "concept-label", la, lb)))
        return doc, [], [("XML_REFERENCED_LOCATOR_ELEMENT_NOT_FOUND", {"elem_id": "q" + v}, x)]
    if kind == "kind":
        x = ext("link:otherLink", R)
        return linkbase(x), [], [("UNSUPPORTED_LINK_TYPE", {"type": q("link:otherLink")}, x)]
    if kind == "arc":
        x = arc("link:labelArc", "concept-label", la, lb)
        doc = linkbase(ext("link:labelLink", R, loc(la, "ex.xsd#ex_A"), lab(), arc("link:labelArc", "concept-label", la, lb), x))
        return doc, [], [("DUPLICATE_LINKBASE_ARC", {"arc_from": la, "arc_to": lb}, x)]
    if kind == "role":
        x = ext("link:labelLink", None)
        return linkbase(x), [], [("MISSING_LINK_ROLE", {}, x)]
    if kind == "language":
        x = lab()
        del x.attrib[q("xml:lang")]
        doc = linkbase(ext("link:labelLink", R, loc(la, "ex.xsd#ex_A"), x, arc("link:labelArc", "concept-label", la, lb)))
        return doc, [], [("MISSING_LABEL_LANGUAGE", {}, x)]
    if kind == "resource":
        x = el("link:other", {"xlink:type": "resource", "xlink:label": lb})
        doc = linkbase(ext("link:labelLink", R, loc(la, "ex.xsd#ex_A"), x, arc("link:labelArc", "concept-label", la, lb)))
        return doc, [], [("XML_UNSUPPORTED_RESOURCE_TAG", {"tag": q("link:other")}, x)]
    if kind.startswith("used-"):
        what = kind[5:]
        others = [k for k in ("presentation", "calculation", "definition") if k != what]
        x = el("link:roleType", {"roleURI": R, "id": "r" + i}, *[el("link:usedOn", None, text="link:%sLink" % k) for k in others])
        role = {"presentation": "parent-child", "calculation": "summation-item", "definition": "x"}[what]
        a = arc("link:%sArc" % what, role, la, lb)
        if what == "calculation":
            a.set("weight", "1")
        if what == "definition":
            a.set(q("xlink:arcrole"), "http://xbrl.org/int/dim/arcrole/domain-member")
        doc = linkbase(ext("link:%sLink" % what, R, loc(la, "ex.xsd#ex_A"), loc(lb, "ex.xsd#ex_B"), a))
        extra = [el("xs:annotation", None, el("xs:appinfo", None, x))]
        return doc, extra, [(what.upper() + "_NETWORK_IN_COMPONENT_WITHOUT_USEDON_ELEMENT", {"linkrole_uri": R}, x)]
    b = "B" if kind == "concept-period" else "C"
    name = "Z" + i + S.str("name" + i, "xy", 1)
    at, code, values = {
        "concept-period": ({"xbrli:periodType": "x" + v}, "INVALID_CONCEPT_PERIOD_TYPE", {"period_type": "x" + v}),
        "concept-balance": ({"xbrli:balance": "x" + v}, "INVALID_CONCEPT_BALANCE_TYPE", {"balance_type": "x" + v}),
        "concept-nillable": ({"nillable": "x" + v}, "INVALID_CONCEPT_NILLABLE_VALUE", {"nillable_value": "x" + v}),
        "concept-type": ({"type": None}, "MISSING_CONCEPT_DATA_TYPE", {}),
    }[kind]
    x = concept_el("ex_Z" + i, name, **{k.replace(":", "__"): w for k, w in at.items()})
    return linkbase(), [x], [(code, dict(values, concept_name=name), x)]


LINKS = (
    "locator kind arc role language resource used-presentation used-calculation used-definition concept-period concept-balance concept-nillable concept-type"
).split()


def link_pairs(S, p):
    """Taxonomies and linkbases with two problems."""
    v = S.str("v", "a{}0", 0, p["n"])
    k = S.pick("kind", list(range(len(LINKS))))
    a, b = LINKS[k], LINKS[(k + S.pick("next", p["next"])) % len(LINKS)]
    doc, extra, want = link_case(S, p, a, v)
    doc2, extra2, want2 = link_case(S, p, b, v, "2")
    for x in list(doc2):
        doc.append(x)
    want = want + want2
    s = schema(NS["ex"], ("ex_A", "A"), ("ex_B", "B"), extra=extra + extra2)
    want = [(c, values, place(x)) for c, values, x in want]
    f = open_xml([("i.xml", instance()), ("ex.xsd", s), ("l.xml", doc)])
    compare_all(S, f, want)
    S.cover("same" if a == b else "different")


def linkbases(S, p):
    """Taxonomies and linkbases with one problem."""
    v = S.str("v", TEXT, 0, p["n"])
    kind = S.pick("kind", p["kinds"])
    doc, extra, want = link_case(S, p, kind, v)
    s = schema(NS["ex"], ("ex_A", "A"), ("ex_B", "B"), extra=extra)
    want = [(c, values, place(x)) for c, values, x in want]
    f = open_xml([("i.xml", instance()), ("ex.xsd", s), ("l.xml", doc)])
    compare(S, f, want)
    S.cover(kind)


def number_el(id="f", text="1", *kids, **a):
    at = {"id": id, "name": "ex:A", "contextRef": "c1", "unitRef": "u1", "decimals": "0"}
    at.update(a)
    return el("ix:nonFraction", {("xsi:nil" if k == "nil" else k): w for k, w in at.items()}, *kids, text=text)


def string_el(id="f", text="1", *kids, **a):
    at = {"id": id, "name": "ex:S", "contextRef": "c1"}
    at.update(a)
    return el("ix:nonNumeric", at, *kids, text=text)


def ix_case(S, kind, v, i=""):
    """(body, resources, hidden, [(code, values, element or function of the document)])"""
    fid = "f" + i + v
    std = [] if i else [context_el("c1"), unit_el("u1")]
    one = lambda x, code, **values: ([x], std, [], [(code, values, x)])
    if kind == "concept":
        return one(number_el(fid, name="ex:Q"), "IXBRL_FACT_INVALID_CONCEPT", concept_name="ex:Q", fact_id=fid)
    if kind == "no-concept":
        return one(number_el(fid, name=None), "IXBRL_FACT_WITHOUT_CONCEPT_NAME", fact_id=fid)
    if kind == "unit":
        return one(number_el(fid, unitRef="x" + v), "IXBRL_INVALID_FACT_UNIT_ID", unit_id="x" + v, fact_id=fid)
    if kind == "no-unit":
        return one(number_el(fid, unitRef=None), "IXBRL_NON_FRACTION_WITHOUT_UNIT", fact_id=fid)
    if kind == "context":
        return one(number_el(fid, contextRef="x" + v), "IXBRL_INVALID_FACT_CONTEXT_ID", context_id="x" + v)
    if kind == "no-context":
        return one(number_el(fid, contextRef=None), "IXBRL_FACT_WITHOUT_CONTEXT", fact_id=fid)
    if kind == "decimals":
        return one(number_el(fid, decimals="x" + v), "INVALID_DECIMALS_ATTRIBUTE_VALUE", decimals="x" + v)
    if kind == "precision":
        return one(number_el(fid, decimals=None, precision="x" + v), "INVALID_PRECISION_ATTRIBUTE_VALUE", precision="x" + v)
    if kind == "sign":
        return one(number_el(fid, sign="x" + v), "IXBRL_INVALID_SIGN_ATTRIBUTE_VALUE", sign="x" + v)
    if kind == "scale":
        return one(number_el(fid, scale="x" + v), "INVALID_SCALE_ATTRIBUTE_VALUE", scale="x" + v)
    if kind == "text":
        return one(number_el(fid, text="x" + v), "IXBRL_NON_NUMERICAL_NON_FRACTION_FACT_VALUE", value="x" + v)
    if kind == "negative":
        return one(number_el(fid, text="-1"), "IXBRL_NEGATIVE_NON_FRACTION_FACT_VALUE", value="-1")
    if kind == "number":
        return one(number_el(fid, text="x" + v, format="ixt:num-dot-decimal"), "NUMBER_DOES_NOT_MATCH_EXPECTED_FORMAT", number="x" + v, format="ixt:num-dot-decimal")
    if kind == "format":
        return one(number_el(fid, format="ixt:x" + v), "UNSUPPORTED_NON_FRACTION_FACT_FORMAT", format="ixt:x" + v)
    if kind == "date":
        return one(string_el(fid, text="x" + v, format="ixt:date-day-month"), "DATE_DOES_NOT_MATCH_EXPECTED_FORMAT", date="x" + v, format="ixt:date-day-month")
    if kind == "string-format":
        return one(string_el(fid, format="ixt:x" + v), "UNSUPPORTED_LITERAL_FACT_FORMAT", format="ixt:x" + v)
    if kind == "date-format":
        return one(string_el(fid, format="ixt:date-x" + v), "UNSUPPORTED_DATE_FORMAT", format="ixt:date-x" + v)
    if kind == "number-format":
        return one(string_el(fid, format="ixt:num-x" + v), "UNSUPPORTED_NON_NUMERIC_FACT_FORMAT", format="ixt:num-x" + v)
    if kind == "escape":
        return one(string_el(fid, escape="x" + v), "IXBRL_INVALID_NON_NUMERIC_FACT_ESCAPE_ATTRIBUTE_VALUE", value="x" + v)
    if kind == "nothing":
        return one(number_el(fid, text=None), "IXBRL_NO_TEXT_OR_CHILDREN_WITH_ABSENT_NIL_ATTRIBUTE")
    if kind == "nil-text":
        return one(number_el(fid, nil="true", decimals=None), "IXBRL_TEXT_OR_CHILDREN_WITH_NIL")
    if kind == "exclusive":
        return one(number_el(fid, precision="1"), "IXBRL_MUTUALLY_EXCLUSIVE_ATTRIBUTES_IN_NON_FRACTION")
    if kind == "two-children":
        x = number_el(fid, None, number_el("g" + i), number_el("h" + i))
        return one(x, "IXBRL_MULTIPLE_NON_FRACTION_CHILDREN")
    if kind == "child":
        return one(number_el(fid, None, el("xhtml:b", None, text="1")), "IXBRL_INVALID_NON_FRACTION_CHILD", child_tag="b")
    if kind == "both":
        return one(number_el(fid, "1", number_el("g" + i)), "IXBRL_BOTH_TEXT_AND_CHILDREN_IN_NON_FRACTION")
    if kind == "duplicate":
        x = string_el(fid)
        return [number_el(fid), x], std, [], [("IXBRL_DUPLICATE_ELEMENT_ID", {"id": fid}, x)]
    if kind == "unused":
        x = el("ix:continuation", {"id": "k" + i + v}, text="2")
        return [string_el(fid), x], std, [], [("IXBRL_UNUSED_CONTINUATION_ELEMENTS", {"element_ids": "['k" + i + v + "']"}, x)]
    if kind == "continuation":
        return one(string_el(fid, continuedAt="x" + v), "IXBRL_INVALID_CONTINUATION_ID", id="x" + v, element_id=fid)
    if kind == "reused":
        x = string_el("g" + i + v, continuedAt="k" + i + v)
        body = [string_el(fid, continuedAt="k" + i + v), x, el("ix:continuation", {"id": "k" + i + v}, text="2")]
        return body, std, [], [("IXBRL_REUSED_CONTINUATION", {"id": "k" + i + v, "element_id": "g" + i + v}, x)]
    if kind == "continuation-id":
        x = el("ix:continuation", None, text="2")
        return [string_el(fid), x], std, [], [("IXBRL_CONTINUATION_WITHOUT_ID", {}, x)]
    if kind == "resource":
        x = el("xbrli:other")
        return [number_el(fid)], std + [x], [], [("IXBRL_INVALID_RESOURCES_CHILD", {"child_tag": "xbrli:other"}, lambda: x.getparent())]
    if kind == "context-twice":
        x = context_el("y" + i + v)
        return [number_el(fid)], std + [context_el("y" + i + v), x], [], [("IXBRL_DUPLICATE_ELEMENT_ID", {"id": "y" + i + v}, x)]
    if kind == "unit-twice":
        x = unit_el("z" + i + v)
        return [number_el(fid)], std + [unit_el("z" + i + v), x], [], [("IXBRL_DUPLICATE_ELEMENT_ID", {"id": "z" + i + v}, x)]
    if kind == "hidden":
        x = el("xhtml:b")
        return [number_el(fid)], std, [x], [("IXBRL_INVALID_HIDDEN_ELEMENT", {"child_tag": "b"}, lambda: x.getparent())]
    if kind == "tuple":
        x = el("ix:tuple")
        return [number_el(fid)], std, [x], [("IXBRL_ELEMENT_NOT_SUPPORTED", {"tag": "ix:tuple"}, lambda: x.getparent())]


IX = (
    "concept no-concept unit no-unit context no-context decimals precision sign scale text negative number format date string-format date-format number-format escape nothing nil-text exclusive "
    "two-children child both duplicate unused continuation reused continuation-id resource context-twice unit-twice hidden tuple"
).split()


def ix_pairs(S, p):
    """Inline documents with two problems."""
    v = S.str("v", TEXT, 0, p["n"])
    k = S.pick("kind", list(range(len(IX))))
    a, b = IX[k], IX[(k + S.pick("next", p["next"])) % len(IX)]
    S.assume(not a == b == "unused")
    body, resources, hidden, want = ix_case(S, a, v)
    body2, resources2, hidden2, want2 = ix_case(S, b, v, "2")
    doc = inline([el("xhtml:p", None, *(body + body2))], resources + resources2, hidden + hidden2)
    all_want = []
    for c, values, x in want + want2:
        w = (c, values, place(x() if callable(x) else x))
        # of some problems the element around is the context
        if not callable(x) or w not in all_want:
            all_want.append(w)
    f = open_xhtml([("d.htm", doc), ("ex.xsd", taxonomy())])
    compare_all(S, f, all_want)
    S.cover("same" if a == b else "different")


def unused(S, p):
    """Several continuations that nothing leads to: one error with all of them, in document order."""
    ids = ["k" + S.pick("id%d" % i, p["ids"][i::p["k"]]) for i in range(p["k"])]
    used = [S.pick("used%d" % i, [0, 1]) for i in range(p["k"])]
    body = [el("ix:continuation", {"id": ids[i]}, text="t") for i in range(p["k"])]
    body += [string_el("f%d" % i, continuedAt=ids[i]) for i in range(p["k"]) if used[i]]
    doc = inline([el("xhtml:p", None, *body)], [context_el("c1"), unit_el("u1")])
    left = [i for i in range(p["k"]) if not used[i]]
    want = []
    if left:
        want = [("IXBRL_UNUSED_CONTINUATION_ELEMENTS", {"element_ids": str([ids[i] for i in left])}, place(body[left[0]]))]
    f = open_xhtml([("d.htm", doc), ("ex.xsd", taxonomy())])
    compare(S, f, want)
    S.cover("all" if len(left) == p["k"] else "some" if left else "none")


def crowd(S, p):
    """Seven problems of different kinds in one instance or inline document, and five in one linkbase."""
    v = S.str("v", TEXT, 0, p["n"])
    what = S.pick("what", ["xml", "inline", "linkbase"])
    kinds = {"xml": XML, "inline": [k for k in IX if k != "unused"], "linkbase": LINKS}[what]
    start, n = S.pick("start", p["start"]), 5 if what == "linkbase" else 7
    mine = [kinds[(start + 4 * j) % len(kinds)] for j in range(n)]
    S.assume(len(set(mine)) == n)
    want, trees = [], [("ex.xsd", taxonomy())]
    if what == "xml":
        doc = instance()
        for j, k in enumerate(mine):
            more, w = xml_case(S, p, k, v, str(j))
            for x in list(more):
                doc.append(x)
            want += w
        trees.append(("i.xml", doc))
    elif what == "linkbase":
        doc, extras = None, []
        for j, k in enumerate(mine):
            more, extra, w = link_case(S, p, k, v, str(j))
            for x in list(more) if doc is not None else []:
                doc.append(x)
            doc = doc if doc is not None else more
            extras += extra
            want += w
        trees = [("i.xml", instance()), ("ex.xsd", schema(NS["ex"], ("ex_A", "A"), ("ex_B", "B"), extra=extras)), ("l.xml", doc)]
    else:
        parts = [[], [], []]
        for j, k in enumerate(mine):
            *xs, w = ix_case(S, k, v, str(j) if j else "")
            for a, b in zip(parts, xs):
                a += b
            want += w
        trees.append(("d.htm", inline([el("xhtml:p", None, *parts[0])], parts[1], parts[2])))
    all_want = []
    for c, values, x in want:
        w = (c, values, place(x() if callable(x) else x))
        if not callable(x) or w not in all_want:
            all_want.append(w)
    f = open_xhtml(trees) if what == "inline" else open_xml(trees)
    compare_all(S, f, all_want)
    S.cover(what)


def inline_documents(S, p):
    """Inline documents with one problem among good facts."""
    v = S.str("v", TEXT, 0, p["n"])
    kind = S.pick("kind", p["kinds"])
    body, resources, hidden, want = ix_case(S, kind, v)
    if S.pick("more", [False, True]):
        body.insert(0, number_el("good"))
    doc = inline([el("xhtml:p", None, *body)], resources, hidden)
    want = [(c, values, place(x() if callable(x) else x)) for c, values, x in want]
    f = open_xhtml([("d.htm", doc), ("ex.xsd", taxonomy())])
    compare(S, f, want, ignore=())
    S.cover(kind)


HARNESSES = [
    Harness(
        messages,
        quick=[dict(lo=0, hi=200, n=1)],
        thorough=[dict(lo=0, hi=200, n=3)],
        covers=["message", "gap"],
        bounds="every code; texts of up to %(n)d characters, braces among them, for every placeholder; one missing or none",
        split={"code": 8},
    ),
    Harness(
        selection,
        quick=[dict(n=2, areas=["MISC", "VALIDATION", "TAXONOMY_PACKAGE"])],
        thorough=[dict(n=2, areas=[a.name for a in Area]), dict(n=3, areas=["MISC", "VALIDATION", "TAXONOMY_PACKAGE"], ifs=2)],
        covers=["some", "none"],
        bounds="%(n)d errors of every severity and area %(areas)s",
    ),
    Harness(xml, quick=[dict(n=2, kinds=XML)], thorough=[dict(n=4, kinds=XML)], covers=XML, bounds="kinds of problems %(kinds)s; ids and texts with up to %(n)d free characters, braces among them", split={"kind": 8}),
    Harness(linkbases, quick=[dict(n=2, kinds=LINKS)], thorough=[dict(n=4, kinds=LINKS)], covers=LINKS, bounds="kinds of problems %(kinds)s; roles, labels and attributes with up to %(n)d free characters", split={"kind": 8}),
    Harness(inline_documents, name="inline", quick=[dict(n=2, kinds=IX)], thorough=[dict(n=4, kinds=IX)], covers=IX, bounds="kinds of problems %(kinds)s; ids and attributes with up to %(n)d free characters", split={"kind": 8}),
    Harness(xml_pairs, quick=[dict(n=1, next=[0, 1, 11])], thorough=[dict(n=1, next=list(range(len(XML))))], covers=["same", "different"], bounds="two problems of XML instances, of one kind or of kinds %(next)s places apart in the list; ids with up to %(n)d free characters", split={"kind": 8}),
    Harness(link_pairs, quick=[dict(n=1, next=[0, 1, 5])], thorough=[dict(n=1, next=list(range(len(LINKS))))], covers=["same", "different"], bounds="two problems of taxonomies and linkbases, of one kind or of kinds %(next)s places apart in the list", split={"kind": 8}),
    Harness(ix_pairs, quick=[dict(n=1, next=[0, 1, 13])], thorough=[dict(n=1, next=list(range(len(IX))))], covers=["same", "different"], bounds="two problems of inline documents, of one kind or of kinds %(next)s places apart in the list", split={"kind": 8}),
    Harness(crowd, quick=[dict(n=1, start=[0, 3, 8])], thorough=[dict(n=1, start=list(range(30)), _split={"what": 3, "start": 30})], covers=["xml", "inline", "linkbase"], bounds="seven problems of different kinds in one document (five in one linkbase), 3 (30) choices of kinds, ids with up to %(n)d free characters", split={"what": 3, "start": 3}),
    Harness(unused, quick=[dict(k=4, ids="abcdefgh")], thorough=[dict(k=5, ids="abcdefghij")], covers=["all", "some", "none"], bounds="%(k)d continuations, each used or not, with two possible ids each"),
]
