"""P08: qualified names."""
from harness.lib import *
from sx.api import Harness
from brel.qnames.qname_utils import qname_from_str

PROPERTY = "P08"

U = {"a": "http://u/1", "b": "http://u/2", "ab": "http://u/1b", None: "http://u/d"}


def scope(outer, inner):
    """An element inside another; the inner scope overrides the outer."""
    root = el("xs:schema", None, nsmap=dict(outer, xs=NS["xs"]))
    return etree.SubElement(root, q("xs:element"), nsmap=inner)


def prefixed(S, p):
    """prefix:local resolves through the innermost binding of the prefix."""
    inner = {}
    for k in ("a", None):
        if S.pick("override" + str(k), [0, 1]):
            inner[k] = "http://u/" + S.pick("new" + str(k), ["1", "2", "d"])
    e = scope(U, inner)
    pre = S.str("prefix", "abx", 0, p["np"])
    loc = S.str("local", p["alpha"], 1, p["nl"])
    pad = S.str("pad", " \n", 0, 1)
    text = pad + (pre + ":" if pre else "") + loc + pad
    g = qname_from_str(text, e)
    S.check(g.local_name == loc and g.prefix == pre, "the local name and prefix of a name are those written")
    binding = dict(U)
    binding.update(inner)
    known = [k for k in binding if k is not None and k == pre]
    if pre == "":
        S.check(g.uri == binding[None], "a name without prefix is in the default namespace")
        S.check(str(g) == loc, "a name without prefix prints as its local name")
        S.cover("default")
    elif known:
        S.check(g.uri == binding[known[0]], "a prefix stands for its innermost binding")
        S.check(str(g) == pre + ":" + loc and g.prefix_local_name_notation() == pre + ":" + loc, "a name prints as prefix:local")
        S.cover("bound")
    else:
        S.check(all(g.uri != u for u in binding.values()), "an unbound prefix is in none of the namespaces")
        S.cover("unbound")
    if pre == "" or known:
        S.check(g.clark_notation() == "{" + g.uri + "}" + loc, "Clark notation")
        h = qname_from_str(g.clark_notation(), e)
        S.check(h == g and h.uri == g.uri and h.local_name == loc, "Clark notation reads back as the same name")
        S.check(S.hash_equal(g, h), "equal names hash alike")


def clark(S, p):
    """{uri}local names its namespace whatever the scope."""
    e = scope(U, {"c": "http://u/2"} if S.pick("second", [0, 1]) else {})
    uri = "http://u/" + S.str("uri", "12bdx:", 0, p["n"])
    loc = S.str("local", "aB1-", 1, p["n"])
    g = qname_from_str("{" + uri + "}" + loc, e)
    S.check(g.uri == uri and g.local_name == loc, "Clark notation states namespace and local name")
    S.check(g.clark_notation() == "{" + uri + "}" + loc, "Clark notation is kept")
    if g.prefix:
        S.check(e.nsmap.get(g.prefix) == uri, "the prefix of a name stands for its namespace")
        h = qname_from_str(str(g), e)
        S.check(h == g, "the printed name reads back as the same name")
        S.cover("prefix")
    S.cover("reached")


def equality(S, p):
    """Names are equal exactly when namespace and local name are; they work as keys."""
    names = []
    for i in range(p["k"]):
        names.append((S.str("u%d" % i, "xy", 1, p["n"]), S.str("p%d" % i, "pq", 0, 1), S.str("l%d" % i, "xy", 1, p["n"])))
    g = [QName(*n) for n in names]
    for i in range(p["k"]):
        for j in range(i):
            same = S.all_of(names[i][0] == names[j][0], names[i][2] == names[j][2])
            S.check_eq(g[i] == g[j], same, "names are equal exactly when namespace and local name are")
            S.check_eq(g[i] != g[j], not same, "unequal is the opposite of equal")
            if same:
                S.check(S.hash_equal(g[i], g[j]), "equal names hash alike")
                S.cover("same")
    d = {}
    for i in range(p["k"]):
        d[g[i]] = i
    for i in range(p["k"]):
        last = [j for j in range(p["k"]) if names[j][0] == names[i][0] and names[j][2] == names[i][2]][-1]
        S.check(d[g[i]] == last, "a name finds what was stored under an equal name")
    S.check(QName(names[0][0], names[0][1], names[0][2]) != names[0][0] and g[0] is not None, "a name is not a string")
    S.check(len(set(g)) == len(d), "a set holds each name once")
    S.cover("reached")


HARNESSES = [
    Harness(prefixed, quick=[dict(np=2, nl=2, alpha="aB1-")], thorough=[dict(np=3, nl=2, alpha="aB1-._")], covers=["default", "bound", "unbound"], bounds="prefixes up to 2 (3) characters over three bound and further unbound ones, two nested scopes with free rebinding, local names up to 2 characters, white space"),
    Harness(clark, quick=[dict(n=2)], thorough=[dict(n=3)], covers=["prefix", "reached"], bounds="namespaces with 2 (3) free characters, local names up to 2 (3)"),
    Harness(equality, quick=[dict(k=2, n=2), dict(k=3, n=1)], thorough=[dict(k=2, n=3), dict(k=3, n=2), dict(k=4, n=1)], covers=["same", "reached"], bounds="2-4 names with free namespace, prefix and local name of 1-3 characters"),
]
ASSUMPTIONS = ["local names and prefixes contain neither colons nor braces"]
