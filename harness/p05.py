"""P05: text of inline non-numeric facts."""
from harness.lib import *
from sx.api import Harness

PROPERTY = "P05"
HEADER = "IXBRL_REFERENCES_ELEMENT_WITHOUT_CHILDREN"
ALPHA = "ab &<>\"'\u00e9\n"
UNUSED = "IXBRL_UNUSED_CONTINUATION_ELEMENTS"
REUSED = "IXBRL_REUSED_CONTINUATION"
UNKNOWN = "IXBRL_INVALID_CONTINUATION_ID"
NOID = "IXBRL_CONTINUATION_WITHOUT_ID"
NESTED = "IXBRL_INVALID_DESCENDANT_IN_CONTINUATION_CHAIN"
DUPLICATE = "IXBRL_DUPLICATE_ELEMENT_ID"
ESCAPE = "IXBRL_INVALID_NON_NUMERIC_FACT_ESCAPE_ATTRIBUTE_VALUE"


def fact_el(id, *children, text=None, tail=None, **a):
    at = {"id": id, "name": "ex:A", "contextRef": "c1"}
    at.update(a)
    return el("ix:nonNumeric", at, *children, text=text, tail=tail)


def read(S, docs):
    trees = [("d%d.htm" % i, d) for i, d in enumerate(docs)]
    f = open_xhtml(trees + [("ex.xsd", schema(NS["ex"], ("ex_A", "A", {"type": "xbrli:stringItemType"}), ("ex_N", "N")))])
    cs = [c for c in codes(f) if c != HEADER]
    facts = {x._get_id(): str(x) for x in f.get_all_facts()}
    S.observe("codes", cs)
    S.observe("facts", facts)
    return facts, cs


def header():
    return [context_el("c1"), unit_el("u1")]


# mark-up ------------------------------------------------------------------


def marked(text):
    """Escaped form of a text, quotes left alone."""
    out = ""
    for ch in text:
        out = out + ("&amp;" if ch == "&" else "&lt;" if ch == "<" else "&gt;" if ch == ">" else ch)
    return out


def unquoted(value):
    """Serialised mark-up without namespace declarations; quotes written out."""
    for p in INST_NS + ("ix", "ixt"):
        value = value.replace(' xmlns:%s="%s"' % (p, NS[p]), "")
    value = value.replace(' xmlns="%s"' % NS["xhtml"], "")
    return value.replace("&quot;", '"').replace("&apos;", "'")


def item(S, n, kind, text, tail, marked):
    """One child: (element, plain text, mark-up) -- mark-up without quotes escaped."""
    plain, mark = text, marked(text)
    after = marked(tail)
    if kind == "b":
        return el("xhtml:b", None, text=text, tail=tail), plain + tail, "<b>" + mark + "</b>" + after
    if kind == "i-in-b":
        return el("xhtml:b", {"class": "k"}, el("xhtml:i", None, text=text), tail=tail), plain + tail, '<b class="k"><i>' + mark + "</i></b>" + after
    if kind == "tail-in-b":
        return el("xhtml:b", None, el("xhtml:i", None, text="1", tail=text), tail=tail), "1" + plain + tail, "<b><i>1</i>" + mark + "</b>" + after
    if kind == "exclude":
        return el("ix:exclude", None, text=text, tail=tail), tail, after
    if kind == "exclude-b":
        return el("ix:exclude", None, el("xhtml:b", None, text="1", tail="2"), text=text, tail=tail), tail, after
    if kind == "exclude-in-b":
        return el("xhtml:b", None, el("ix:exclude", None, text="1", tail=text), tail=tail), plain + tail, "<b>" + mark + "</b>" + after
    if kind == "fact":
        return fact_el("n%d" % n, text=text, tail=tail), plain + tail, mark + after
    if kind == "fact-b":
        return (
            fact_el("n%d" % n, el("xhtml:b", None, text="1", tail=text), text="0", tail=tail),
            "01" + plain + tail,
            "0<b>1</b>" + mark + after,
        )
    if kind == "fact-in-b":
        return el("xhtml:b", None, fact_el("n%d" % n, text=text), tail=tail), plain + tail, "<b>" + mark + "</b>" + after
    if kind == "number":
        return (
            el("ix:nonFraction", {"id": "n%d" % n, "name": "ex:N", "contextRef": "c1", "unitRef": "u1", "decimals": "0"}, text="12", tail=tail),
            "12" + tail,
            "12" + after,
        )
    if kind == "continuation":
        # continues the fact z
        return el("ix:continuation", {"id": "k%d" % n, "continuedAt": None}, text=text, tail=tail), plain + tail, mark + after
    if kind == "br":
        return el("xhtml:br", None, tail=tail), tail, "<br/>" + after
    if kind == "br-in-b":
        return el("xhtml:b", None, el("xhtml:br", None), tail=tail), tail, "<b><br/></b>" + after
    return None, tail, after


KINDS = ("b", "i-in-b", "tail-in-b", "exclude", "exclude-b", "exclude-in-b", "fact", "fact-b", "fact-in-b", "number", "br", "br-in-b")


def content(S, p):
    """The text is that of the element in document order, excluded parts left out."""
    escaped = p["escape"] == "true"
    n = p["n"]
    alpha = p["alpha"]
    lead = S.str("lead", alpha, p.get("lead", 1))
    write = marked if escaped else (lambda t: t)
    plain, mark = lead, write(lead)
    kids = []
    for i in range(n):
        kind = S.pick("kind%d" % i, p["kinds"])
        text = S.str("text%d" % i, alpha if escaped else ALPHA, 1)
        tail = S.str("tail%d" % i, alpha if escaped else ALPHA, p.get("tail", 1))
        e, a, b = item(S, i, kind, text, tail, write)
        if e is not None:
            kids.append(e)
        plain = plain + a
        mark = mark + b
    d = inline([el("xhtml:p", None, fact_el("f", *kids, text=lead, tail="x", escape=p["escape"]))], header())
    facts, cs = read(S, [d])
    S.check(cs == [], "no error for well formed text")
    if escaped:
        S.check_eq(unquoted(facts["f"]), mark, "the text is the mark-up of the fact")
    else:
        S.check_eq(facts["f"], plain, "the text is that of the fact and everything in it, excluded parts left out")
    S.cover("reached")


def quotes(S, p):
    """A text without mark-up is escaped character by character."""
    t = S.str("t", "a&<>\"'; ", p["n"])
    d = inline([fact_el("f", text=t, escape="true"), fact_el("g", text=t)], header())
    facts, cs = read(S, [d])
    S.check(cs == [], "no error for well formed text")
    want = ""
    for ch in t:
        want = want + {"&": "&amp;", "<": "&lt;", ">": "&gt;", '"': "&quot;", "'": "&apos;"}.get(S.concrete(ch), ch)
    S.check_eq(facts["f"].replace("&quot;", '"').replace("&apos;", "'"), want.replace("&quot;", '"').replace("&apos;", "'"), "every special character is escaped once")
    S.check_eq(facts["g"], t, "without escaping the text is as it stands")
    S.cover("reached")


def attribute(S, p):
    """The escape attribute is an xs:boolean."""
    v = S.str("v", "trufalse10TRY", p["n"])
    d = inline([fact_el("f", text="a<b", escape=v)], header())
    facts, cs = read(S, [d])
    if S.any_of(v == "true", v == "1"):
        S.check(cs == [] and facts["f"] == "a&lt;b", "true and 1 escape")
        S.cover("true")
    elif S.any_of(v == "false", v == "0"):
        S.check(cs == [] and facts["f"] == "a<b", "false and 0 do not escape")
        S.cover("false")
    else:
        S.check(cs == [ESCAPE], "other values are reported")
        S.cover("bad")


# continuations --------------------------------------------------------------


def chains(S, p):
    """Facts followed by their continuations, wherever those stand."""
    nf, nc = p["facts"], p["conts"]
    ids = ["k%d" % i for i in range(nc)]
    options = [None] + ids + (["zz"] if p.get("unknown") else [])
    nxt = {}
    texts = {}
    els = []
    for i in range(nf):
        id = "f%d" % i
        nxt[id] = S.pick("at-" + id, options)
        texts[id] = S.str("t-" + id, ALPHA, 1)
        els.append(fact_el(id, text=texts[id], continuedAt=nxt[id]))
    for id in ids:
        nxt[id] = S.pick("at-" + id, options)
        texts[id] = S.str("t-" + id, ALPHA, 1)
        kids = []
        if p.get("mark") == "b":
            kids = [el("xhtml:b", None, text="2")]
        elif p.get("mark"):
            kids = [el("ix:exclude", None, text="no", tail="1"), el("xhtml:b", None, text="2", tail="3")]
        els.append(el("ix:continuation", {"id": id, "continuedAt": nxt[id]}, *kids, text=texts[id]))
        if p.get("mark"):
            texts[id] = texts[id] + ("2" if p["mark"] == "b" else "123")
    if p.get("reverse"):
        els = els[::-1]
    if p.get("docs"):
        second = els[nf:] if not p.get("reverse") else els[:nc]
        first = els[:nf] if not p.get("reverse") else els[nc:]
        docs = [inline(first, header()), el("xhtml:html", None, el("xhtml:body", None, *second), nsmap=nsmap("xhtml", "ix"))]
    else:
        docs = [inline(els, header())]
    used = []
    want = {}
    unknown = reused = False
    for i in range(nf):
        id = "f%d" % i
        chain = [id]
        at = nxt[id]
        while at is not None:
            if at in used:
                reused = True
            if at not in ids:
                unknown = True
                break
            if at in chain:
                break
            chain.append(at)
            used.append(at)
            at = nxt[at]
        want[id] = "".join([texts[c] for c in chain])
    facts, cs = read(S, docs)
    for id in want:
        S.check_eq(facts[id], want[id], "the fact and its continuations in the order of the chain")
    S.check((UNKNOWN in cs) == unknown, "a continuation that does not exist is reported")
    S.check((REUSED in cs) == reused, "a continuation used twice is reported")
    unused = False
    for id in ids:
        if id not in used:
            unused = True
    S.check((UNUSED in cs) == unused, "a continuation that nothing leads to is reported")
    S.check(set(cs) <= {UNKNOWN, REUSED, UNUSED}, "nothing else is reported")
    S.cover("fine" if cs == [] else "bad")


def long(S, p):
    """A long chain, and text far down in the mark-up."""
    n = p["n"]
    t = S.str("text", ALPHA, 2)
    at = S.pick("at", list(range(n + 1)))
    texts = ["<%d>" % i if i != at else t for i in range(n + 1)]
    order = list(range(n + 1))
    turn = S.pick("turn", [0, 1, 5])
    order = order[turn:] + order[:turn] if turn != 1 else order[::-1]
    els, want = [], ""
    for i in range(n + 1):
        inner = el("xhtml:b", None, text=texts[i])
        for k in range(p["deep"] if i == at else 0):
            inner = [el("xhtml:span", None, inner, text="(", tail=")"), el("ix:exclude", None, text="no", tail="-")] if k % 2 else [el("xhtml:i", None, inner, tail=".")] if not isinstance(inner, list) else [el("xhtml:i", None, *inner, tail=".")]
            inner = inner if len(inner) > 1 else inner[0]
        kids = inner if isinstance(inner, list) else [inner]
        a = {"continuedAt": "k%d" % (i + 1) if i < n else None}
        els.append(el("ix:continuation", dict(a, id="k%d" % i), *kids) if i else fact_el("f", *kids, **a))
        want += depth_text(texts[i], p["deep"] if i == at else 0)
    facts, cs = read(S, [inline([els[i] for i in order], header())])
    S.check(cs == [], "no error")
    S.check_eq(facts["f"], want, "the text of a long chain")
    S.cover("long")


def depth_text(t, deep):
    """What the mark-up of long shows."""
    for k in range(deep):
        t = "(" + t + ")" + "-" if k % 2 else t + "."
    return t


def nesting(S, p):
    """Continuations inside other elements."""
    # f0 continued at k0; f1 continued at k1; both continuations are put somewhere
    t = [S.str("t%d" % i, "ab", 1) for i in range(4)]
    at0 = S.pick("at0", ["k0", "k1"])
    at1 = "k1" if at0 == "k0" else "k0"
    place0 = S.pick("place0", ["body", "f0", "f1", "b in f0", "b in f1"])
    place1 = S.pick("place1", ["body", "f0", "f1", "k0"])
    f = [fact_el("f0", text=t[0], continuedAt=at0), fact_el("f1", text=t[1], continuedAt=at1)]
    k = [el("ix:continuation", {"id": "k0"}, text=t[2]), el("ix:continuation", {"id": "k1"}, text=t[3])]
    inner = {"f0": t[0], "f1": t[1], "k0": t[2], "k1": t[3]}
    body = list(f)
    inside = {"f0": [], "f1": [], "k0": []}
    if place1 == "k0":
        k[0].append(k[1])
        inner["k0"] = inner["k0"] + t[3]
        inside["k0"].append("k1")
    if place0 == "body":
        body.append(k[0])
    else:
        o = place0[-2:]
        host = f[int(o[1])]
        if place0[0] == "b":
            host.append(el("xhtml:b", None, k[0]))
        else:
            host.append(k[0])
        inner[o] = inner[o] + inner["k0"]
        inside[o] = inside[o] + ["k0"] + inside["k0"]
    if place1 == "body":
        body.append(k[1])
    elif place1 != "k0":
        f[int(place1[1])].append(k[1])
        inner[place1] = inner[place1] + t[3]
        inside[place1] = inside[place1] + ["k1"]
    bad = at0 in inside["f0"] or at1 in inside["f1"]
    facts, cs = read(S, [inline(body, header())])
    if bad:
        S.check(NESTED in cs and set(cs) == {NESTED}, "a continuation inside the text it continues is reported")
        S.cover("bad")
    else:
        S.check(cs == [], "no error for well formed text")
        S.check_eq(facts["f0"], inner["f0"] + inner[at0], "text and continuation")
        S.check_eq(facts["f1"], inner["f1"] + inner[at1], "text and continuation")
        S.cover("fine")


def identifiers(S, p):
    """Ids are needed and unique."""
    ids = [S.pick("id%d" % i, [None, "a", "b", "c1", "f"]) for i in range(p["n"])]
    at = S.pick("at", [None, "a", "b"])
    els = [fact_el("f", text="t", continuedAt=at)] + [el("ix:continuation", {"id": i}, text="s") for i in ids]
    facts, cs = read(S, [inline(els, header())])
    S.check((NOID in cs) == (None in ids), "a continuation without an id is reported")
    taken = ["c1", "f"]
    dup = False
    for i in ids:
        if i is not None and i in taken:
            dup = True
        taken.append(i)
    S.check((DUPLICATE in cs) == dup, "an id used twice is reported")
    S.check((UNKNOWN in cs) == (at is not None and at not in ids), "a continuation that does not exist is reported")
    S.check((UNUSED in cs) == any([i is not None and i != at for i in ids]), "a continuation that nothing leads to is reported")
    S.check(facts.get("f") == ("ts" if at in ids and at is not None else "t"), "the text and its continuation")
    S.cover("reached")


HARNESSES = [
    Harness(
        content,
        quick=[dict(escape=None, n=2, kinds=KINDS, alpha=ALPHA), dict(escape=None, n=3, kinds=KINDS, alpha=ALPHA), dict(escape="false", n=1, kinds=KINDS, alpha=ALPHA, lead=2)]
        + [dict(escape="true", n=1, kinds=KINDS, alpha="a&<\""), dict(escape="true", n=2, kinds=KINDS, alpha="a<", tail=0)],
        thorough=[dict(escape=None, n=n, kinds=KINDS, alpha=ALPHA) for n in (0, 1, 2, 3)]
        + [dict(escape="true", n=1, kinds=KINDS, alpha=ALPHA), dict(escape="true", n=2, kinds=KINDS, alpha="a<\""), dict(escape="true", n=3, kinds=KINDS, alpha="<", tail=0)],
        covers=["reached"],
        bounds="up to 3 children (escaped in quick: 2) of 12 kinds (mark-up, empty elements, excluded parts, nested facts, each also inside one another), every text and tail one character over letters, white space, non-ASCII and XML special characters",
    ),
    Harness(quotes, quick=[dict(n=n) for n in (1, 2, 3)], thorough=[dict(n=n) for n in (1, 2, 3, 4)], covers=["reached"], bounds="texts of up to 3 (4) characters over the special characters"),
    Harness(attribute, quick=[dict(n=n) for n in (1, 4, 5)], thorough=[dict(n=n) for n in (1, 2, 3, 4, 5, 6)], covers=["true", "false", "bad"], bounds="values of 1, 4 or 5 (1-6) characters"),
    Harness(
        chains,
        quick=[dict(facts=1, conts=2, unknown=True, mark=True), dict(facts=1, conts=2, mark="b"), dict(facts=2, conts=2, unknown=True), dict(facts=1, conts=3), dict(facts=1, conts=3, reverse=True), dict(facts=2, conts=2, docs=True)],
        thorough=[dict(facts=2, conts=3, unknown=True), dict(facts=3, conts=2, reverse=True), dict(facts=1, conts=4), dict(facts=2, conts=3, docs=True, reverse=True, mark=True)],
        covers=["fine", "bad"],
        bounds="up to 2 facts with 2, or 1 fact with 3 continuations (thorough: 2 with 3, 1 with 4), every continuedAt free, in one or two documents",
    ),
    Harness(long, quick=[dict(n=11, deep=8)], thorough=[dict(n=30, deep=20)], covers=["long"], bounds="a chain of %(n)d continuations in three orders, text of 2 free characters in any of them under %(deep)d levels of mark-up"),
    Harness(nesting, covers=["fine", "bad"], bounds="2 facts with one continuation each, the continuations in the body, in a fact, in mark-up in a fact, or in each other"),
    Harness(identifiers, quick=[dict(n=2)], thorough=[dict(n=2), dict(n=3)], covers=["reached"], bounds="2 (3) continuations with free ids"),
]
ASSUMPTIONS = [
    "the documents are built in memory after the parser dropped comments and processing instructions, as the loader does",
    "the inline XBRL namespace is bound to the prefix 'ix', as the code requires",
    "in escaped text &quot; and a quote character count as the same, and so do namespace declarations and their absence",
]
