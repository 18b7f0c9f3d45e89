"""P03: value of inline numeric facts."""
from fractions import Fraction

from harness.lib import *
from sx.api import Harness

PROPERTY = "P03"

HEADER = "IXBRL_REFERENCES_ELEMENT_WITHOUT_CHILDREN"


def report(S, text, nil=None, **a):
    at = {"id": "f1", "name": "ex:A", "contextRef": "c1", "unitRef": "u1", "xsi:nil": nil}
    at.update(a)
    d = inline([el("ix:nonFraction", at, text=text)], [context_el("c1"), unit_el("u1")])
    f = open_xhtml([("d.htm", d), ("ex.xsd", schema(NS["ex"], ("ex_A", "A")))])
    cs = [c for c in codes(f) if c != HEADER]
    facts = f.get_all_facts()
    S.check(len(facts) == 1, "exactly one fact is reported")
    S.observe("value", str(facts[0]))
    S.observe("codes", cs)
    return facts[0], cs


def number(digits, frac, scale, neg):
    v = Fraction(int(digits + frac))
    e = scale - len(frac)
    v = v * 10**e if e >= 0 else v / 10 ** (-e)
    return -v if neg else v


def numeral(s):
    """Fraction denoted by a plain decimal numeral, None if it is none."""
    neg = s.startswith("-")
    if neg:
        s = s[1:]
    if "." in s:
        a, b = s.split(".", 1)
    else:
        a, b = s, ""
    if not a.isdecimal() or ("." in s and not b.isdecimal()):
        return None
    return number(a, b, 0, neg)


def good(S, fact, cs, want):
    S.check(cs == [], "no error for a well formed number")
    got = numeral(str(fact))
    S.check(got is not None, "value is a decimal numeral")
    S.check(got == want, "value is the displayed number times ten to the scale")
    S.cover("reached")


DIG = "0123456789"
# format -> (group separators, decimal separator)
APOS = "'`\u00b4\u2019\u2032"
FORMATS = {
    "ixt:num-dot-decimal": (", \u00a0", "."),
    "ixt:num-comma-decimal": (". \u00a0", ","),
    "ixt:num-dot-decimal-apos": (", \u00a0" + APOS, "."),
    "ixt:num-comma-decimal-apos": (". \u00a0" + APOS, ","),
    "ixt:numdotdecimal": (", \u00a0", "."),
    "ixt:numdotdecimalin": (", \u00a0", "."),
    "ixt:numcommadecimal": (". \u00a0", ","),
    "ixt:numcommadot": (",", "."),
    "ixt:numdotcomma": (".", ","),
    "ixt:numcomma": ("", ","),
    "ixt:numspacedot": (" \u00a0", "."),
    "ixt:numspacecomma": (" \u00a0", ","),
}
UNITS = {
    "ixt:num-unit-decimal": ",.\uff0c",
    "ixt:num-unit-decimal-apos": ",.\uff0c" + APOS + "\uff07",
    "ixt:numunitdecimal": ",.\uff0c",
    "ixt:numunitdecimalin": ",.\uff0c",
}
ZEROS = ["ixt:fixed-zero", "ixt:zerodash", "ixt:numdash"]


def magnitude(S, p):
    """Plain digits, every scale and sign."""
    fmt = S.pick("fmt", ["ixt:num-dot-decimal", "ixt:num-comma-decimal"])
    whole = S.str("whole", DIG, p["n"])
    frac = S.str("frac", DIG, p["m"])
    scale = S.int("scale", p["lo"], p["hi"])
    neg = S.pick("neg", [None, "-"])
    text = whole + (FORMATS[fmt][1] + frac if p["m"] else "")
    fact, cs = report(S, text, format=fmt, scale=str(scale), sign=neg, decimals="0")
    good(S, fact, cs, number(whole, frac, scale, neg == "-"))


def separators(S, p):
    """Digits mixed with the group separators of the format."""
    fmt = p["fmt"]
    group, dec = FORMATS[fmt]
    whole = S.str("whole", DIG[p.get("d0", 0):] + group, p["n"])
    frac = S.str("frac", DIG[1:], p["m"])
    S.assume(whole[0] in DIG)
    text = whole + (dec + frac if p["m"] else "")
    dig = ""
    for ch in whole:
        if ch not in group:
            dig = dig + ch
    fact, cs = report(S, text, format=fmt, scale=p.get("scale"), decimals="0")
    good(S, fact, cs, number(dig, frac, int(p.get("scale") or 0), False))


def long(S, p):
    """Long numbers in many groups, and large scales."""
    fmt = p["fmt"]
    group, dec = FORMATS[fmt]
    sep = S.pick("separator", list(group) or [""])
    d = S.str("digits", DIG, 3)
    whole = sep.join(["12", "04" + d[0], "000", d[1] + "70", "001", "23" + d[2]])
    frac = S.pick("frac", ["", "0", "10203040506070" + d[1]])
    scale = S.pick("scale", [None, "-21", "-9", "7", "30"])
    neg = S.pick("neg", [None, "-"])
    fact, cs = report(S, whole + (dec + frac if frac else ""), format=fmt, scale=scale, sign=neg, decimals="-12")
    good(S, fact, cs, number("1204" + d[0] + "000" + d[1] + "7000123" + d[2], frac, int(scale or 0), neg == "-"))
    S.check(fact.get_decimals() == -12, "the accuracy of the fact")


def plain(S, p):
    """No format attribute: the text is the number itself."""
    whole = S.str("whole", DIG, p["n"])
    frac = S.str("frac", DIG, p["m"])
    neg = S.pick("neg", [None, "-"])
    pad = S.pick("pad", ["", " ", "\n"])
    text = pad + whole + ("." + frac if p["m"] else "") + pad
    fact, cs = report(S, text, scale=p.get("scale"), sign=neg, decimals="INF")
    good(S, fact, cs, number(whole, frac, int(p.get("scale") or 0), neg == "-"))
    S.check(fact.get_decimals() == float("inf"), "decimals INF is infinite")


def majorminor(S, p):
    """Major and minor unit written out in words."""
    fmt = S.pick("fmt", list(UNITS))
    wide = "\uff10\uff11\uff12\uff13\uff14\uff15\uff16\uff17\uff18\uff19"
    whole = S.str("whole", DIG + wide if p["wide"] else DIG, p["n"])
    frac = S.str("frac", DIG + wide if p["wide"] else DIG, p["m"])
    word = S.pick("word", [" Euro ", "\u5186", " rupees and "])
    tail = S.pick("tail", ["", " cents", "\u92ad"])
    sep = S.pick("sep", ["", ",", "\uff0c"])
    fact, cs = report(S, whole[:1] + (sep if p["n"] > 1 else "") + whole[1:] + word + frac + tail, format=fmt, decimals="0")
    good(S, fact, cs, number(whole, ("0" + frac)[-2:], 0, False))


def zero(S, p):
    fmt = S.pick("fmt", ZEROS)
    text = S.str("text", "-\u2013\u2014 0nil", p["n"])
    scale = S.pick("scale", [None, "0", "3"])
    fact, cs = report(S, text, format=fmt, scale=scale, decimals="0")
    good(S, fact, cs, Fraction(0))


def rejected(S, p):
    """Text the declared format does not admit is reported, never guessed at."""
    fmt = p["fmt"]
    text = S.str("text", p["alpha"], p["n"])
    S.assume(text.strip() != "")
    t = text.strip()
    if fmt is None:
        ok = 0
        bad = False
        for ch in t:
            if ch == ".":
                ok = ok + 1
            elif ch not in DIG:
                bad = True
        valid = not bad and ok <= 1 and t != "." and t != ""
        S.assume(not valid)
        fact, cs = report(S, text, decimals="0")
    else:
        group, dec = FORMATS[fmt]
        if dec in t:
            a, b = t.split(dec, 1)
            valid = b != ""
        else:
            a, b, valid = t, "", True
        for ch in a:
            if ch not in DIG + group:
                valid = False
        for ch in b:
            if ch not in DIG + " \u00a0":
                valid = False
        S.assume(not valid)
        fact, cs = report(S, text, format=fmt, decimals="0")
    want = ["NUMBER_DOES_NOT_MATCH_EXPECTED_FORMAT", "IXBRL_NON_NUMERICAL_NON_FRACTION_FACT_VALUE", "IXBRL_NEGATIVE_NON_FRACTION_FACT_VALUE"]
    hits = [c for c in cs if c in want]
    S.check(len(hits) >= 1, "text the format does not admit is reported as an error")
    S.check(str(fact) == t or str(fact) == "", "no number is made up for rejected text")
    S.cover("reached")


def attributes(S, p):
    """decimals, precision, scale, sign and nil attributes."""
    which = p["attr"]
    v = S.str("v", p["alpha"], p["n"])
    isint = v.strip() != "" and (v.strip().isdecimal() or (v.strip()[0] in "+-" and v.strip()[1:].isdecimal()))
    if which in ("decimals", "precision"):
        fact, cs = report(S, "12", format="ixt:num-dot-decimal", **{which: v})
        got = fact.get_decimals() if which == "decimals" else fact.get_precision()
        other = fact.get_precision() if which == "decimals" else fact.get_decimals()
        S.check(other is None, "the absent attribute stays absent")
        bad = "INVALID_%s_ATTRIBUTE_VALUE" % which.upper()
        S.check(str(fact) == "12", "value unaffected")
        if v == "INF":
            S.check(got == float("inf") and cs == [], "INF is infinite")
            S.cover("inf")
        elif isint:
            S.check(got == int(v) and cs == [], "integer accuracy is kept")
            S.cover("int")
        else:
            S.check(got is None and cs == [bad], "invalid accuracy is reported")
            S.cover("bad")
    elif which == "scale":
        fact, cs = report(S, "12", format="ixt:num-dot-decimal", scale=v, decimals="0")
        if isint:
            good(S, fact, cs, number("12", "", int(v), False))
            S.cover("int")
        else:
            S.check(cs == ["INVALID_SCALE_ATTRIBUTE_VALUE"], "invalid scale is reported")
            S.check(str(fact) == "12", "invalid scale is ignored")
            S.cover("bad")
    else:
        fact, cs = report(S, "12", format="ixt:num-dot-decimal", sign=v, decimals="0")
        if v == "-":
            S.check(cs == [] and str(fact) == "-12", "minus sign negates")
            S.cover("int")
        elif v == "":
            S.check(cs == [] and str(fact) == "12", "empty sign is no sign")
        else:
            S.check(cs == ["IXBRL_INVALID_SIGN_ATTRIBUTE_VALUE"], "invalid sign is reported")
            S.check(str(fact) == "12", "invalid sign is ignored")
            S.cover("bad")


def nil(S, p):
    """Nil facts have no value; other facts need one."""
    nilv = S.pick("nil", [None, "true", "false", "1", "0", " true\n"])
    text = S.pick("text", [None, "5", "12"])
    dec = S.pick("decimals", [None, "0", "INF"])
    prec = S.pick("precision", [None, "2"])
    fact, cs = report(S, text, nil=nilv, format="ixt:num-dot-decimal", decimals=dec, precision=prec)
    is_nil = nilv in ("true", "1", " true\n")
    both = (dec is not None) + (prec is not None) + is_nil > 1
    S.check(("IXBRL_MUTUALLY_EXCLUSIVE_ATTRIBUTES_IN_NON_FRACTION" in cs) is both, "a fact is nil or has decimals or precision")
    if is_nil:
        S.check(str(fact) == "", "a nil fact has no value")
        S.check(("IXBRL_TEXT_OR_CHILDREN_WITH_NIL" in cs) == (text is not None), "nil with content is reported")
    elif text is None:
        S.check(str(fact) == "" and "IXBRL_NO_TEXT_OR_CHILDREN_WITH_ABSENT_NIL_ATTRIBUTE" in cs, "missing content is reported")
    else:
        S.check(str(fact) == text and len(cs) == both, "content is the value")
    S.cover("reached")


def nested(S, p):
    """A fact that consists of a nested fact shares its number, scaled and signed on its own."""
    depth = p["depth"]
    text = S.str("text", DIG, 2)
    pad = S.pick("pad", [None, "\n ", " "])
    signs = []
    inner = None
    for k in range(depth, -1, -1):
        sign = S.pick("sign%d" % k, [None, "-"])
        signs.insert(0, sign)
        a = {"id": "f%d" % k, "name": "ex:" + "AB"[k % 2], "contextRef": "c1", "unitRef": "u1", "format": "ixt:num-dot-decimal", "decimals": "0", "scale": p.get("scale"), "sign": sign}
        if inner is None:
            inner = el("ix:nonFraction", a, text=text)
        else:
            inner.tail = pad
            inner = el("ix:nonFraction", a, inner, text=pad)
    d = inline([inner], [context_el("c1"), unit_el("u1")])
    f = open_xhtml([("d.htm", d), ("ex.xsd", schema(NS["ex"], ("ex_A", "A"), ("ex_B", "B")))])
    S.check([c for c in codes(f) if c != HEADER] == [], "no error for well formed nested facts")
    facts = {x._get_id(): x for x in f.get_all_facts()}
    S.check(len(facts) == depth + 1, "every nested fact is reported")
    for k in range(depth + 1):
        got = numeral(str(facts["f%d" % k]))
        S.check(got is not None, "value is a decimal numeral")
        S.check(got == number(text, "", int(p.get("scale") or 0), signs[k] == "-"), "the nested text, scaled and signed by the fact itself")
    S.cover("reached")


def nestederrors(S, p):
    """What may not be nested is reported."""
    case = p["case"]
    base = {"name": "ex:A", "contextRef": "c1", "format": "ixt:num-dot-decimal", "unitRef": "u1", "decimals": "0", "scale": None}
    outer = dict(base, id="f0")
    child = dict(base, id="f1", name="ex:B")
    text = "12"
    kids = []
    want = set()
    if case == "attributes":
        differ = False
        for k, vs in (("format", ["ixt:num-dot-decimal", "ixt:num-comma-decimal"]), ("scale", [None, "2"]), ("unitRef", ["u1", "u2"])):
            outer[k] = S.pick("o" + k, vs)
            child[k] = S.pick("c" + k, vs)
            if outer[k] != child[k]:
                differ = True
        if differ:
            want.add("IXBRL_DIFFERING_FORMAT_SCALE_OR_UNIT_FOR_NON_FRACTION_CHILD")
        kids = [el("ix:nonFraction", child, text=text)]
    elif case == "nil":
        child["xsi:nil"] = S.pick("nil", [None, "true", "false", "1", "0"])
        is_nil = child["xsi:nil"] in ("true", "1")
        if child["xsi:nil"] is not None:
            child["decimals"] = None
        kids = [el("ix:nonFraction", child, text=None if is_nil else text)]
        if is_nil:
            want.add("IXBRL_NIL_ATTRIBUTE_IN_NON_FRACTION_CHILD")
    elif case == "number":
        n = S.pick("n", [1, 2, 3])
        kids = [el("ix:nonFraction", dict(child, id="f%d" % (i + 1)), text=text) for i in range(n)]
        if n > 1:
            want.add("IXBRL_MULTIPLE_NON_FRACTION_CHILDREN")
    elif case == "mixed":
        before = S.pick("before", [None, " ", "1"])
        after = S.pick("after", [None, "\n", "2"])
        kids = [el("ix:nonFraction", child, text=text, tail=after)]
        if before == "1" or after == "2":
            want.add("IXBRL_BOTH_TEXT_AND_CHILDREN_IN_NON_FRACTION")
    else:
        tag = S.pick("tag", ["xhtml:span", "ix:nonFraction", "xhtml:b"])
        kids = [el(tag, child if tag == "ix:nonFraction" else {}, text=text)]
        if tag != "ix:nonFraction":
            want.add("IXBRL_INVALID_NON_FRACTION_CHILD")
    d = inline([el("ix:nonFraction", outer, *kids, text=before if case == "mixed" else None)], [context_el("c1"), unit_el("u1"), unit_el("u2", "iso4217:EUR")])
    f = open_xhtml([("d.htm", d), ("ex.xsd", schema(NS["ex"], ("ex_A", "A"), ("ex_B", "B")))])
    got = [c for c in codes(f) if c in NESTED]
    S.check(sorted(got) == sorted(want), "exactly the rules that the nesting breaks are reported")
    S.cover("bad" if want else "fine")


NESTED = (
    "IXBRL_DIFFERING_FORMAT_SCALE_OR_UNIT_FOR_NON_FRACTION_CHILD",
    "IXBRL_NIL_ATTRIBUTE_IN_NON_FRACTION_CHILD",
    "IXBRL_MULTIPLE_NON_FRACTION_CHILDREN",
    "IXBRL_BOTH_TEXT_AND_CHILDREN_IN_NON_FRACTION",
    "IXBRL_INVALID_NON_FRACTION_CHILD",
)


R = "0.,5 a-e"
HARNESSES = [
    Harness(
        magnitude,
        quick=[dict(n=n, m=m, lo=-4, hi=4) for n in (1, 2, 3) for m in (0, 1, 2)],
        thorough=[dict(n=n, m=m, lo=-8, hi=9) for n in (1, 2, 3, 4, 5) for m in (0, 1, 2, 3, 4)],
        covers=["reached"],
        bounds="quick: up to 3 whole and 2 fraction digits, scale -4..4; thorough: up to 5 whole and 4 fraction digits, scale -8..9; sign absent or '-'",
    ),
    Harness(
        separators,
        quick=[dict(fmt=f, n=n, m=m, d0=1, scale=sc) for f in FORMATS for n, m, sc in ((2, 0, None), (3, 1, "3"))],
        thorough=[dict(fmt=f, n=n, m=m, d0=d0, scale=sc) for f in FORMATS for n, m, sc, d0 in ((1, 2, "-1", 0), (2, 1, "-2", 0), (3, 2, None, 0), (4, 1, "3", 1))],
        covers=["reached"],
        bounds="a digit followed by up to 2 (thorough: 3) characters, each any digit or any group separator of the format, 1 (2) fraction digits; all number formats of the registry and their legacy names",
    ),
    Harness(long, quick=[dict(fmt=f) for f in ("ixt:num-dot-decimal", "ixt:num-comma-decimal-apos", "ixt:numspacecomma", "ixt:numcomma")], thorough=[dict(fmt=f) for f in FORMATS], covers=["reached"], bounds="numbers of 17 digits in six groups, three of the digits free, with up to 15 fraction digits and scales of -21 to 30"),
    Harness(
        plain,
        quick=[dict(n=1, m=0), dict(n=2, m=1, scale="2"), dict(n=2, m=2, scale="-1")],
        thorough=[dict(n=n, m=m, scale=s) for n in (1, 2, 3, 4) for m in (0, 1, 2) for s in (None, "-3", "6")],
        covers=["reached"],
        bounds="no format attribute; up to 2 (4) whole and 2 fraction digits",
    ),
    Harness(
        majorminor,
        quick=[dict(n=1, m=1, wide=False), dict(n=2, m=2, wide=False), dict(n=1, m=2, wide=True)],
        thorough=[dict(n=n, m=m, wide=w) for n in (1, 2, 3) for m in (1, 2) for w in (False, True) if not (w and n + m > 4)],
        covers=["reached"],
        bounds="up to 2 (3) major digits, 1-2 minor digits, ASCII and full width digits, 3 unit words, 3 tails, 3 group separators",
    ),
    Harness(zero, quick=[dict(n=1), dict(n=2)], thorough=[dict(n=n) for n in (1, 2, 3, 4)], covers=["reached"], bounds="texts of up to 2 (4) characters from a dash/zero alphabet"),
    Harness(
        rejected,
        quick=[dict(fmt=f, n=n, alpha=R) for f in (None, "ixt:num-dot-decimal", "ixt:num-comma-decimal") for n in (1, 2, 3)],
        thorough=[dict(fmt=f, n=n, alpha=R + "'+_") for f in (None,) + tuple(FORMATS)[:4] for n in (1, 2, 3, 4)],
        covers=["reached"],
        bounds="texts of up to 3 (4) characters over digits, separators, signs and letters",
    ),
    Harness(
        attributes,
        quick=[dict(attr=a, n=n, alpha=al) for a, al in (("decimals", "0127INF-.a"), ("precision", "0127INF-.a"), ("scale", "012-+a."), ("sign", "-+a ")) for n in (1, 2)]
        + [dict(attr=a, n=3, alpha="INFx1-") for a in ("decimals", "precision")],
        thorough=[dict(attr=a, n=n, alpha=al) for a, al in (("decimals", "0127INF-.a"), ("precision", "0127INF-.a"), ("scale", "01-+a."), ("sign", "-+a ")) for n in (1, 2, 3)],
        covers=["int", "bad", "inf"],
        bounds="attribute values of up to 2-3 characters",
    ),
    Harness(nil, covers=["reached"], bounds="nil absent or in any spelling of true and false, with and without content, decimals and precision"),
    Harness(nested, quick=[dict(depth=1), dict(depth=1, scale="-2"), dict(depth=2, scale="3"), dict(depth=3)], thorough=[dict(depth=d, scale=sc) for d in (1, 2, 3) for sc in (None, "-1", "2")], covers=["reached"], bounds="1 to 3 levels of nesting, signs free at every level, shared scale, white space around the nested facts"),
    Harness(nestederrors, quick=[dict(case=c) for c in ("attributes", "nil", "number", "mixed", "tag")], covers=["bad", "fine"], bounds="one fact with 1-3 children; format, scale, unit, nil attribute, element name and text around the child free"),
]
ASSUMPTIONS = [
    "one nonFraction fact per document, in a minimal valid inline XBRL document with one monetary concept, one context and one unit",
    "the transformation prefix is spelled 'ixt' as the code requires",
]
