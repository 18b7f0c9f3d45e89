"""P10: calculation consistency."""
from harness.lib import *
from harness.p09 import arc, extended, linkbase, locator, networks
from sx.api import Harness
from brel.networks import CalculationNetwork

PROPERTY = "P10"
ROLE = "http://ex.com/role/r"
SUM = "http://www.xbrl.org/2003/arcrole/summation-item"
# twentieths, so that all sums are exact
WEIGHT = {"1": 20, "-1": -20, "1.0": 20, "-1.0": -20, "0.5": 10, "-0.5": -10}

SHAPES = {
    "flat": {"t": ["a", "b"]},
    "one": {"t": ["a"]},
    "deep": {"t": ["a", "b"], "a": ["c"]},
    "two": {"t": ["a"], "b": ["c"]},
    "chain": {"t": ["a"], "a": ["b"]},
    "wide": {"t": ["a", "b", "c", "d", "e", "g", "h", "i"]},
    "tall": {"t": ["a"], "a": ["b"], "b": ["c"], "c": ["d"], "d": ["e"], "e": ["g"]},
    "roots": {"a": ["b"], "c": ["d"], "e": ["g"], "h": ["i"], "t": ["u"], "v": ["w"]},
    "shared": {"t": ["a", "c"], "b": ["c"]},
}


def open_net(S, shape, weights, facts=(), extra=(), balances=None, schema_extra=()):
    kids = SHAPES[shape]
    ids = sorted(set(kids) | set(x for v in kids.values() for x in v))
    cs = [(i, "E" + i, {"xbrli:balance": (balances or {}).get(i)}) for i in ids]
    link = [locator(i, i) for i in ids] + [arc("link:calculationArc", a, b, SUM, weight=weights[a + b]) for a in kids for b in kids[a]]
    trees = [("ex.xsd", schema(NS["ex"], *cs, extra=schema_extra)), ("l.xml", linkbase(extended("link:calculationLink", ROLE, *link))), ("i.xml", instance(*extra, *facts))]
    ctx = new_context(trees)
    f = Filing(XMLFilingParser(ctx).parse())
    S.check(codes(f) == [], "no error")
    ns = networks(ctx, CalculationNetwork, ROLE)
    S.check(len(ns) == 1, "one network")
    return f, ns[0], kids, ids


def judge(kids, facts, key, value, weights):
    """True, False or None (undecided) and whether any contribution is missing or ambiguous; shown = False if a total is wrong"""
    undecided, ok = False, []
    for a in kids:
        for f in facts:
            if f["c"] != a:
                continue
            total, known = 0, True
            for b in kids[a]:
                hit = [g for g in facts if g["c"] == b and key(g) == key(f)]
                if len(hit) != 1:
                    known = False
                    continue
                total = total + value(hit[0]) * WEIGHT[weights[a + b]]
            if not known:
                undecided = True
            else:
                ok.append((value(f) * 20, total))
    return undecided, ok


def answer(S, f, net, kids, facts, key, value, weights):
    undecided, ok = judge(kids, facts, key, value, weights)
    wrong = False
    for x, y in ok:
        if x != y:
            wrong = True
    try:
        r = net.is_aggregation_consistent(f.get_all_facts())
    except ValueError:
        r = None
    if undecided:
        S.check(r is not True, "a total with a missing or ambiguous contribution is not called consistent")
        if not wrong:
            S.check(r is None, "a missing or ambiguous contribution is reported when no total is wrong")
        S.cover("undecided")
    elif wrong:
        S.check(r is False, "a total that differs from the weighted sum of its parts is inconsistent")
        S.cover("inconsistent")
    else:
        S.check(r is True, "totals that all equal the weighted sums of their parts are consistent")
        S.cover("consistent")


def fact(c, text, ctx="c", unit="u", id=None):
    return el("ex:E" + c, {"contextRef": ctx, "unitRef": unit, "decimals": {"t": "0", "a": "-3"}.get(c, "2"), "id": id}, text=text)


def sums(S, p):
    """Totals equal the weighted sums of their parts, for all numbers."""
    shape = S.pick("shape", p["shapes"])
    kids = SHAPES[shape]
    weights = {}
    for a in sorted(kids):
        for b in kids[a]:
            weights[a + b] = S.pick("w" + a + b, p["weights"])
    ids = sorted(set(kids) | set(x for v in kids.values() for x in v))
    facts, els = [], []
    for i in ids:
        d = S.str("d" + i, "0123456789", 1, p["digits"])
        t = d
        v = int(d) * 10
        if p["fraction"] and S.pick("fraction" + i, [0, 1]):
            h = S.str("h" + i, "0123456789", 1)
            t = t + "." + h
            v = v + int(h)
        if p.get("sign") and S.pick("sign" + i, [0, 1]):
            t, v = "-" + t, -v
        t = p.get("pad", "") + t
        facts.append({"c": i, "v": v})
        els.append(fact(i, t))
    f, net, kids, _ = open_net(S, shape, weights, els, [context_el("c"), unit_el("u")])
    answer(S, f, net, kids, facts, lambda g: 0, lambda g: g["v"], weights)


def exact(S, p):
    """Numbers without an exact binary form add up."""
    texts = p["texts"]
    t = [S.pick("t%d" % i, texts) for i in range(3)]
    v = [int(round(float(x) * 100)) for x in t]
    w = {"ta": S.pick("wa", ["1", "-1"]), "tb": S.pick("wb", ["1", "0.5"])}
    facts = [{"c": c, "v": x} for c, x in zip("tab", v)]
    f, net, kids, _ = open_net(S, "flat", w, [fact(c, x) for c, x in zip("tab", t)], [context_el("c"), unit_el("u")])
    answer(S, f, net, kids, facts, lambda g: 0, lambda g: g["v"], w)


def contexts(S, p):
    """A total is the sum of the facts of its own period, entity, dimensions and unit."""
    shape = S.pick("shape", p["shapes"])
    kids = SHAPES[shape]
    weights = {a + b: "1" for a in kids for b in kids[a]}
    D = lambda m: el("xbrldi:explicitMember", {"dimension": "ex:D"}, text="ex:" + m)
    cx = {
        "c": ("base", lambda: context_el("c")),
        "same": ("base", lambda: context_el("same")),
        "later": ("later", lambda: context_el("later", instant("2021-12-31"))),
        "other": ("other", lambda: context_el("other", ident="e2")),
        "dim": ("dim", lambda: context_el("dim", segment=[D("M")])),
        "dimN": ("dimN", lambda: context_el("dimN", segment=[D("N")])),
    }
    un = {"u": ("USD", "iso4217:USD"), "u2": ("USD", "iso4217:USD"), "v": ("EUR", "iso4217:EUR")}
    ids = sorted(set(kids) | set(x for v in kids.values() for x in v))
    facts, els = [], []
    for i, c in enumerate(ids + ["a"] * p["more"]):
        x = S.pick("c%d" % i, p["contexts"])
        u = S.pick("u%d" % i, p["units"])
        d = S.str("d%d" % i, "0123456789", 1)
        if p.get("drop") and i < len(ids) and S.pick("drop%d" % i, [0, 1]):
            continue
        facts.append({"c": c, "v": int(d), "k": (cx[x][0], un[u][0])})
        els.append(fact(c, d, x, u, id="f%d" % i))
    dm = [
        el("xs:element", {"id": "D", "name": "D", "type": "xbrli:stringItemType", "substitutionGroup": "xbrldt:dimensionItem", "abstract": "true", "xbrli:periodType": "instant"}),
    ] + [el("xs:element", {"id": m, "name": m, "type": "nonnum:domainItemType", "substitutionGroup": "xbrli:item", "abstract": "true", "xbrli:periodType": "instant"}) for m in ("M", "N")]
    f, net, kids, _ = open_net(S, shape, weights, els, [cx[x][1]() for x in cx] + [unit_el(u, un[u][1]) for u in un], schema_extra=dm)
    answer(S, f, net, kids, facts, lambda g: g["k"], lambda g: g["v"], weights)


def balance(S, p):
    """Weights follow the balances."""
    shape = S.pick("shape", p["shapes"])
    kids = SHAPES[shape]
    ids = sorted(set(kids) | set(x for v in kids.values() for x in v))
    bal = {i: S.pick("balance" + i, p["balances"]) for i in ids}
    weights, good = {}, True
    for a in sorted(kids):
        for b in kids[a]:
            d = S.str("d" + a + b, "0123456789", 1, p["digits"]) if "weights" not in p else "1"
            S.assume(int(d) != 0)
            neg = S.pick("neg" + a + b, [0, 1])
            weights[a + b] = ("-" if neg else "") + S.pick("form" + a + b, p["forms"]) + d
            if bal[a] is None or bal[b] is None or (bal[a] == bal[b]) == (neg == 1):
                good = False
    f, net, kids, _ = open_net(S, shape, weights, balances=bal)
    S.check(net.is_balance_consistent() is good, "a network is balance consistent exactly when every weight has the sign that the balances of its concepts require")
    S.cover("good" if good else "bad")


HARNESSES = [
    Harness(
        sums,
        quick=[
            dict(shapes=["flat", "one", "chain"], weights=["1", "-1"], digits=1, fraction=0, sign=1),
            dict(shapes=["flat"], weights=["1", "-1.0", "0.5"], digits=2, fraction=1),
            dict(shapes=["deep", "two", "shared"], weights=["1", "-1"], digits=1, fraction=0),
            dict(shapes=["one"], weights=["1", "-1", "-0.5"], digits=4, fraction=1, sign=1, pad=" "),
            dict(shapes=["wide", "tall"], weights=["1"], digits=1, fraction=0),
            dict(shapes=["roots"], weights=["1"], digits=1, fraction=0),
        ],
        thorough=[
            dict(shapes=["flat"], weights=["1", "-1", "0.5"], digits=2, fraction=1, sign=1, _split={"wta": 3, "wtb": 3}),
            dict(shapes=["chain"], weights=list(WEIGHT), digits=3, fraction=1, _split={"wta": 6}),
            dict(shapes=["deep", "two", "shared"], weights=["1", "-1"], digits=2, fraction=0, _split={"shape": 3, "wta": 2}),
            dict(shapes=["one"], weights=list(WEIGHT), digits=6, fraction=1, sign=1, pad=" "),
        ],
        covers=["consistent", "inconsistent"],
        bounds="networks of 2-4 concepts in 6 shapes and of 7-12 in 3, numbers of up to 4 (6) digits with a fraction digit and sign, weights of both signs and halves",
    ),
    Harness(exact, quick=[dict(texts=["0.1", "0.2", "0.3", "0.15", "0.05", "-0.1"])], thorough=[dict(texts=["0.1", "0.2", "0.3", "0.15", "0.05", "-0.1", "0.7", "1.1", "1.23", "1e1", "-0.35"])], covers=["consistent", "inconsistent"], bounds="decimal fractions without an exact binary form"),
    Harness(
        contexts,
        quick=[
            dict(shapes=["one"], contexts=["c", "same", "later", "other", "dim", "dimN"], units=["u"], more=0),
            dict(shapes=["one"], contexts=["c", "dim"], units=["u", "u2", "v"], more=0, drop=1),
            dict(shapes=["flat"], contexts=["c", "dim"], units=["u"], more=1),
            dict(shapes=["chain", "two"], contexts=["c", "later"], units=["u"], more=0, drop=1),
        ],
        thorough=[
            dict(shapes=["flat", "chain"], contexts=["c", "same", "later", "dim"], units=["u", "v"], more=0, drop=1, _split={"shape": 2, "c0": 4}),
            dict(shapes=["one"], contexts=["c", "later", "dim", "dimN"], units=["u", "u2"], more=1, _split={"c0": 4}),
            dict(shapes=["deep", "two", "shared"], contexts=["c", "dim"], units=["u"], more=1, drop=1, _split={"shape": 3, "c0": 2}),
        ],
        covers=["consistent", "inconsistent", "undecided"],
        bounds="2-5 facts over 6 contexts (equal, other period, entity, member) and 3 units (two equal), facts missing or repeated",
    ),
    Harness(
        balance,
        quick=[
            dict(shapes=["flat", "one", "chain", "two"], balances=[None, "debit", "credit"], digits=1, forms=["", "0."]),
            dict(shapes=["deep"], balances=["debit", "credit"], digits=1, forms=[""]),
            dict(shapes=["wide", "tall", "roots"], balances=["debit"], digits=1, forms=[""], weights=1, _split={"shape": 3}),
        ],
        thorough=[dict(shapes=["flat", "one", "chain", "two"], balances=[None, "debit", "credit"], digits=2, forms=["", "0."], _split={"shape": 4, "balancet": 3}), dict(shapes=["deep", "shared"], balances=[None, "debit", "credit"], digits=1, forms=[""], _split={"shape": 2, "balancet": 3})],
        covers=["good", "bad"],
        bounds="networks of 2-4 concepts in 5 shapes, all balances, and of 7-12 in 3, all debits, weights of both signs up to 9 (99) or below 1, not zero",
    ),
]
ASSUMPTIONS = ["the facts of all concepts in the network are numbers; nil facts are not summed", "sums are exact: no rounding to decimals is done"]
