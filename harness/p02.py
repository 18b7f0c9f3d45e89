"""P02: facts of XML instances keep what they state."""
from harness.lib import *
from sx.api import Harness

PROPERTY = "P02"
DIG = "0123456789"
INTS = ["integerItemType", "nonNegativeIntegerItemType", "positiveIntegerItemType", "intItemType", "longItemType", "shortItemType", "byteItemType", "nonPositiveIntegerItemType", "negativeIntegerItemType", "unsignedLongItemType", "unsignedIntItemType", "unsignedShortItemType", "unsignedByteItemType"]
FLOATS = ["monetaryItemType", "sharesItemType", "pureItemType", "decimalItemType", "floatItemType", "doubleItemType", "percentItemType", "perShareItemType", "areaItemType"]
STRINGS = ["stringItemType", "textBlockItemType", "dateItemType", "anyURIItemType", "tokenItemType", "customType", "notbooleanItemType", "pointItemType", "monetaryItemTypes", "boolean"]


def open_facts(types, *facts):
    """types: concept local name -> (type, nillable)"""
    els = [("ex_" + n, n, dict(type=t, nillable=nil)) for n, (t, nil) in types.items()]
    inst = instance(context_el("c"), unit_el("u"), *facts)
    return open_xml([("i.xml", inst), ("ex.xsd", schema(NS["ex"], *els))])


def fact(name, text, **a):
    at = {"contextRef": "c"}
    at.update(a)
    return el("ex:" + name, at, text=text)


def text(S, p):
    """Text and id are kept as they are."""
    v = S.str("v", p["alpha"], 0, p["n"])
    i = "i" + S.str("i", "ab-.1", 0, 1) if S.pick("id", [0, 1]) else None
    nil = S.pick("nil", ["true", "false"])
    f = open_facts({"A": ("xbrli:stringItemType", nil)}, fact("A", v or None, id=i))
    (x,) = f.get_all_facts()
    S.check(str(x) == v and x.get_value_as_str() == v and x.get_value() == v, "the text is kept")
    S.check(x.get_id() == i, "the id is kept")
    S.check(x.get_decimals() is None and x.get_precision() is None, "no accuracy is made up")
    S.check(x.get_unit() is None, "no unit is made up")
    cs = codes(f)
    if v == "" and nil == "false":
        S.check(cs == ["MISSING_FACT_VALUE"], "a missing value is reported")
        S.cover("missing")
    else:
        S.check(cs == [], "no error")
        S.cover("kept")


def accuracy(S, p):
    """decimals and precision."""
    which = p["attr"]
    v = S.str("v", p["alpha"], p["n"])
    f = open_facts({"A": ("xbrli:monetaryItemType", "true")}, fact("A", "12", id="f", unitRef="u", **{which: v}))
    (x,) = f.get_all_facts()
    got = x.get_decimals() if which == "decimals" else x.get_precision()
    other = x.get_precision() if which == "decimals" else x.get_decimals()
    S.check(other is None, "the absent attribute stays absent")
    S.check(str(x) == "12" and x.get_unit().get_value() == "u", "value and unit are kept")
    cs = codes(f)
    t = v.strip()
    if v == "INF":
        S.check(got == float("inf") and cs == [], "INF is infinite")
        S.cover("inf")
    elif t != "" and (t.isdecimal() or (t[0] in "+-" and t[1:].isdecimal())):
        S.check(got == int(v) and cs == [], "an integer accuracy is kept")
        S.cover("int")
    else:
        S.check(got is None and cs == ["INVALID_%s_ATTRIBUTE_VALUE" % which.upper()], "a malformed accuracy is reported")
        S.cover("bad")


def integral(v):
    if v != "" and v[0] in "+-":
        v = v[1:]
    return v.isdecimal()


def decimal(v):
    if v != "" and v[0] in "+-":
        v = v[1:]
    if "." in v:
        a, b = v.split(".", 1)
        return (a + b).isdecimal()
    return v.isdecimal()


def typed(S, p):
    """The typed value follows the type of the concept."""
    kind = p["kind"]
    t = S.pick("type", {"int": INTS, "float": FLOATS, "bool": ["booleanItemType"], "str": STRINGS}[kind][: p.get("types", 99)])
    pre = S.pick("prefix", p.get("prefixes", ["xbrli:", "num:", ""]))
    v = S.str("v", p["alpha"], p["n"])
    f = open_facts({"A": (pre + t, "true")}, fact("A", v, id="f"))
    (x,) = f.get_all_facts()
    if kind == "int":
        if integral(v):
            S.check(x.get_value() == int(v) and isinstance(x.get_value(), int) and x.get_value_as_int() == int(v), "an integer fact has its integer")
            S.check(float(x) == float(v), "an integer fact is also a float")
            S.cover("good")
        else:
            S.check(raises(x.get_value) == "ValueError" and raises(int, x) == "ValueError", "an integer fact without an integer has no value")
            S.cover("bad")
    elif kind == "float":
        if decimal(v):
            S.check(x.get_value() == float(v) and isinstance(x.get_value(), float) and x.get_value_as_float() == float(v), "a numeric fact has its number")
            S.cover("good")
        else:
            S.check(raises(x.get_value) == "ValueError" and raises(float, x) == "ValueError", "a numeric fact without a number has no value")
            S.cover("bad")
    elif kind == "bool":
        lo = v.lower()
        if lo == "true" or v == "1":
            S.check(x.get_value() is True and x.get_value_as_bool() is True, "true is true")
            S.cover("good")
        elif lo == "false" or v == "0":
            S.check(x.get_value() is False and x.get_value_as_bool() is False, "false is false")
            S.cover("good")
        else:
            S.check(raises(x.get_value) == "ValueError", "a boolean fact without a boolean has no value")
            S.cover("bad")
    else:
        S.check(x.get_value() == v, "any other fact has its text")
        S.cover("good")
        S.cover("bad")


def several(S, p):
    """Facts do not influence each other."""
    facts, want = [], []
    for i in range(p["k"]):
        n = S.pick("n%d" % i, ["A", "B"])
        v = S.str("v%d" % i, "01x", 1)
        dec = S.pick("dec%d" % i, [None, "d", "p"])
        a = S.str("a%d" % i, "012", 1)
        at = {"decimals": a} if dec == "d" else {"precision": a} if dec == "p" else {}
        u = S.pick("u%d" % i, [None, "u"])
        facts.append(fact(n, v, id="f%d" % i, unitRef=u, **at))
        want.append((n, v, int(a) if dec == "d" else None, int(a) if dec == "p" else None, u))
    f = open_facts({"A": ("xbrli:stringItemType", "true"), "B": ("xbrli:monetaryItemType", "true")}, *facts)
    got = {x.get_id(): x for x in f.get_all_facts()}
    S.check(len(got) == p["k"] and codes(f) == [], "all facts are there without errors")
    for i, (n, v, d, pr, u) in enumerate(want):
        x = got["f%d" % i]
        S.check(x.get_concept().get_name().local_name == n and str(x) == v, "each fact has its own concept and text")
        S.check(x.get_decimals() == d and x.get_precision() == pr, "each fact has its own accuracy")
        un = x.get_unit()
        S.check((un is None) == (u is None), "each fact has a unit exactly when it states one")
        row = x.convert_to_dict()
        S.check(row["id"] == "f%d" % i and row["value"] == v and row["concept"] == "ex:" + n, "the fact as a dictionary states the same")
        S.check(row.get("unit") == u, "the fact as a dictionary states its unit")
    S.cover("reached")


def unit_reference(S, p):
    """A fact naming a unit that does not exist."""
    u = S.str("u", "uvw", 1)
    f = open_facts({"A": ("xbrli:monetaryItemType", "true")}, fact("A", "1", id="f0", unitRef=u), fact("A", "2", id="f1", unitRef="u"))
    got = {x.get_id(): x for x in f.get_all_facts()}
    S.check(str(got["f1"]) == "2", "other facts are kept")
    if u == "u":
        S.check(codes(f) == [] and got["f0"].get_unit().get_value() == "u", "the unit is found")
        S.cover("found")
    else:
        S.check(codes(f) == ["XML_INVALID_FACT_UNIT_ID"] and "f0" not in got, "an unknown unit is reported")
        S.cover("unknown")


def long_int(digits):
    v = 0
    for d in digits:
        v = v * 10 + int(d)
    return v


def many(S, p):
    """Long texts and numbers, twelve facts at once."""
    a, b = S.str("a", "a0 .\n", 1, 2), S.str("b", "0123456789", 3)
    i, d = S.pick("i", p["at"]), S.str("d", "0123456789", 2)
    texts = [("S", "word " * 60 + a + " end" * 20), ("S", a + "\n\n" + "x" * 200 + a), ("I", "1234567890" * 2 + b), ("I", "-" + b + "0" * 20 + "1")]
    texts += [("F", "123456789012" + b + ".5"), ("B", "true"), ("B", "0")]
    texts += [("S", "t%d" % k) for k in range(5)]
    facts, want = [], []
    for k, (n, t) in enumerate(texts):
        dec = d if k == i else str(-k)
        facts.append(fact(n, t, id="f%d" % k, unitRef="u" if n in "IF" else None, decimals=dec if n in "IF" or k == i else None))
        want.append((n, t, int(dec) if n in "IF" or k == i else None, n in "IF"))
    f = open_facts({"S": ("xbrli:stringItemType", "true"), "I": ("xbrli:integerItemType", "true"), "F": ("xbrli:decimalItemType", "true"), "B": ("xbrli:booleanItemType", "true")}, *facts)
    got = {x.get_id(): x for x in f.get_all_facts()}
    S.check(len(got) == len(want) and codes(f) == [], "all facts are there without errors")
    for k, (n, t, dec, u) in enumerate(want):
        x = got["f%d" % k]
        S.check(x.get_concept().get_name().local_name == n, "each fact has its own concept")
        S.check_eq(x.get_value_as_str(), t, "each fact has its own text")
        S.check(x.get_decimals() == dec and (x.get_unit() is not None) == u, "each fact has its own accuracy and unit")
    S.check_eq(got["f2"].get_value_as_int(), long_int("1234567890" * 2 + b), "an integer of any length is exact")
    S.check_eq(got["f3"].get_value_as_int(), -long_int(b + "0" * 20 + "1"), "an integer of any length is exact")
    S.check(got["f5"].get_value_as_bool() is True and got["f6"].get_value_as_bool() is False, "booleans")
    S.cover("reached")


HARNESSES = [
    Harness(many, quick=[dict(at=[2, 11])], thorough=[dict(at=list(range(12)), _split={"at": 12})], covers=["reached"], bounds="twelve facts with texts of up to 400 characters and numbers of 23 digits, five characters of them free"),
    Harness(text, quick=[dict(alpha="a0 .-&\u00e9\n", n=3)], thorough=[dict(alpha="a0 .-&\u00e9\n<>\"'", n=6)], covers=["kept", "missing"], bounds="texts of up to 3 (6) characters, nillable or not, with and without id"),
    Harness(
        accuracy,
        quick=[dict(attr=a, n=n, alpha="0127INF-+.a ") for a in ("decimals", "precision") for n in (0, 1, 2)] + [dict(attr=a, n=3, alpha="INFinf1-") for a in ("decimals", "precision")],
        thorough=[dict(attr=a, n=n, alpha="0127INF-+.a e") for a in ("decimals", "precision") for n in (0, 1, 2, 3, 4)],
        covers=["inf", "int", "bad"],
        bounds="attribute values of up to 3 (4) characters",
    ),
    Harness(
        typed,
        quick=[dict(kind="int", n=2, alpha="019+-.x"), dict(kind="float", n=3, alpha="05.-x", prefixes=["xbrli:", ""]), dict(kind="bool", n=4, alpha="truefalsTR"), dict(kind="bool", n=1, alpha="01t"), dict(kind="bool", n=5, alpha="falseFtr", prefixes=["xbrli:"]), dict(kind="str", n=2, alpha="1.t")],
        thorough=[dict(kind="int", n=n, alpha=DIG + "+-.x") for n in (1, 2, 3, 4)] + [dict(kind="float", n=n, alpha="0125.-+x") for n in (1, 2, 3, 4, 5)] + [dict(kind="bool", n=n, alpha="truefalsTRUEFALS01") for n in (1, 4, 5)] + [dict(kind="str", n=3, alpha="1.t ")],
        covers=["good", "bad"],
        bounds="13 integer types, 9 other numeric types, boolean and 10 other types, texts of up to 5 characters",
    ),
    Harness(several, quick=[dict(k=1), dict(k=2)], thorough=[dict(k=2), dict(k=3)], covers=["reached"], bounds="up to 2 (3) facts over 2 concepts", split=dict(n0=2, dec0=3, u0=2)),
    Harness(unit_reference, covers=["found", "unknown"], bounds="one character unit ids"),
]
ASSUMPTIONS = ["one instance document with distinct fact ids", "numeric texts are plain decimals (no exponent notation)"]
