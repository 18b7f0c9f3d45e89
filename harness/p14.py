"""P14: labels and references belong to the elements their arcs name."""
from harness.lib import *
from harness.p09 import ARCROLE, arc, extended, linkbase, locator, networks
from brel.characteristics import Aspect
from sx.api import Harness
from brel.networks import LabelNetwork, ReferenceNetwork
from brel.resource import BrelLabel
from brel.services.translation.translation_service import TranslationService

PROPERTY = "P14"

LABEL = "http://www.xbrl.org/2003/arcrole/concept-label"
REF = "http://www.xbrl.org/2003/arcrole/concept-reference"
STD = "http://www.xbrl.org/2003/role/label"
ROLES = [None, STD, "http://www.xbrl.org/2003/role/terseLabel"]
LINK = "http://www.xbrl.org/2003/role/link"


def parse(ids, *links):
    trees = [("ex.xsd", schema(NS["ex"], *[(i, i.upper()) for i in ids])), ("i.xml", instance())]
    trees.insert(1, ("l.xml", linkbase(*links)))
    ctx = new_context(trees)
    XMLFilingParser(ctx).parse()
    return ctx


def element(ctx, ident):
    return ctx.get_report_element_repository().get_by_id(ident)


def label_el(name, lang, role, text, *children):
    return el("link:label", {"xlink:type": "resource", "xlink:label": name, "xml:lang": lang, "xlink:role": role}, *children, text=text)


def graph(S, p):
    """Which element gets which labels, for all label arcs between a few elements and label resources."""
    ids = ["ea", "eb", "ec"][: p["els"]]
    kinds = [label_el]
    locs = list(zip(S.pick("locs", [["A", "B", "C"], ["A", "A", "C"]])[: p["els"]], ids))
    res = []
    for i in range(p["res"]):
        res.append((S.pick("name%d" % i, ["t1", "t2"]), S.pick("lang%d" % i, p["langs"]), S.pick("role%d" % i, p["roles"]), "x" + S.str("text%d" % i, "ab ", p["n"])))
    links, want, bad = [], {i: [] for i in ids}, 0
    for k in range(p["links"]):
        arcs = []
        for i in range(p["arcs"]):
            arcs.append((S.pick("from%d%d" % (k, i), sorted(set([l for l, i in locs]))), S.pick("to%d%d" % (k, i), ["t1", "t2"])))
        S.assume(len(set(arcs)) == len(arcs))
        parts = [locator(l, i) for l, i in locs] + [label_el(*r) for r in res]
        al = [arc("link:labelArc", f, t, LABEL) for f, t in arcs]
        inherit = S.pick("inherit%d" % k, p["inherit"])
        x = extended("link:labelLink", LINK + str(k), *(al + parts if p.get("first") and S.pick("first", [0, 1]) else parts + al))
        if inherit:
            x.set(q("xml:lang"), inherit)
        links.append(x)
        for f, t in arcs:
            for l, i in locs:
                if l == f:
                    for r in res:
                        if r[0] == t and (r[1] or inherit):
                            want[i].append((r[1] or inherit, r[2] or STD, r[3]))
        bad += len([r for r in res if not (r[1] or inherit)])
    ctx = parse(ids, *links)
    S.check(codes(ctx) == ["MISSING_LABEL_LANGUAGE"] * bad, "exactly the labels without a language are reported")
    for i in ids:
        got = element(ctx, i).get_labels()
        S.check(len(got) == len(want[i]), "an element has exactly the labels that arcs lead to from it")
        for g, w in zip(got, want[i]):
            S.check(g.get_language() == w[0], "a label has its language, or that of the nearest element around it")
            S.check(g.get_label_role() == w[1], "a label has its role, or the standard role")
            S.check_eq(str(g), w[2], "a label has its text")
    if bad:
        S.cover("no language")
    S.cover("reached")


def text(S, p):
    """The text of a label with mark-up."""
    a, b, c, d = (S.str("t%d" % i, p["alpha"], 0, p["n"]) for i in range(4))
    inner = el("xhtml:b", None, text=b, tail=d)
    nest = S.pick("nest", [0, 1, 2])
    if nest:
        inner.append(el("xhtml:i", None, text=c))
        if nest == 2:
            inner.append(el("xhtml:br", None, tail="."))
    lab = label_el("t", "en", None, a, inner)
    ctx = parse(["ea"], extended("link:labelLink", LINK, locator("A", "ea"), lab, arc("link:labelArc", "A", "t", LABEL)))
    S.check(codes(ctx) == [], "no error")
    got = element(ctx, "ea").get_labels()
    S.check(len(got) == 1, "one label")
    S.check_eq(got[0].get_content(), a + b + (c if nest else "") + ("." if nest == 2 else "") + d, "a label has all text in it")
    S.check(got[0].convert_to_dict() == {"text": got[0].get_content(), "language": "en", "label_role": STD}, "the parts of a label as a dictionary")
    S.cover("reached")


def loose(S, p):
    """Labels that no arc leads to, arcs that lead nowhere and locators of nothing leave the other labels intact."""
    what = S.pick("what", ["orphan", "orphanfirst", "only", "dangling", "nosource", "missing", "noarcs", "twice"])
    lang = S.pick("lang", ["en", "de"])
    t = S.str("text", "ab", p["n"])
    good = [locator("A", "ea"), label_el("t", lang, None, t), arc("link:labelArc", "A", "t", LABEL)]
    want, errors = [t], []
    if what == "orphan":
        good.append(label_el("u", "en", None, "other"))
    elif what == "orphanfirst":
        good.insert(0, label_el("u", "en", None, "other"))
    elif what == "only":
        good, want = [label_el("u", "en", None, "other")], []
    elif what == "dangling":
        good.insert(S.pick("at", [0, 2]), arc("link:labelArc", "A", "nothing", LABEL))
    elif what == "nosource":
        good.insert(S.pick("at", [0, 2]), arc("link:labelArc", "nothing", "t", LABEL))
    elif what == "missing":
        good += [locator("Z", "nothere"), arc("link:labelArc", "Z", "t", LABEL)]
        errors = ["XML_REFERENCED_LOCATOR_ELEMENT_NOT_FOUND"]
    elif what == "noarcs":
        good, want = good[:2], []
    elif what == "twice":
        good.append(arc("link:labelArc", "A", "t", LABEL))
        errors = ["DUPLICATE_LINKBASE_ARC"]
    links = [extended("link:labelLink", LINK, *good), extended("link:labelLink", LINK, locator("B", "eb"), label_el("v", "fr", None, "second"), arc("link:labelArc", "B", "v", LABEL))]
    if S.pick("swap", [0, 1]):
        links = links[::-1]
    ctx = parse(["ea", "eb"], *links)
    S.check(codes(ctx) == errors, "exactly what is wrong is reported")
    got = element(ctx, "ea").get_labels()
    S.check(len(got) == len(want), "the element has the label that leads to it")
    for g, w in zip(got, want):
        S.check_eq(str(g), w, "with its text")
    got = element(ctx, "eb").get_labels()
    S.check([str(x) for x in got] == ["second"], "labels of other links are intact")
    S.cover(what)


PARTS = ["link:Name", "link:Number", "ex:Name", "ex:Clause"]


def refs(S, p):
    """References have the parts that are written in them and hang below their elements."""
    res = []
    for i in range(p["res"]):
        parts = []
        for j in range(p["parts"]):
            n = S.pick("part%d%d" % (i, j), PARTS[p["skip"] :])
            S.assume(n.split(":")[1] not in [x.split(":")[1] for x, y in parts])
            parts.append((n, S.str("text%d%d" % (i, j), "ab1 ", p["lo"], 1)))
        res.append((S.pick("name%d" % i, ["t1", "t2"]), S.pick("role%d" % i, [None, "http://ex.com/role/def"][: p["roles"]]), parts))
    arcs = [(S.pick("from%d" % i, ["A", "B"]), S.pick("to%d" % i, ["t1", "t2"])) for i in range(p["arcs"])]
    S.assume(len(set(arcs)) == len(arcs))
    els = [el("link:reference", {"xlink:type": "resource", "xlink:label": n, "xlink:role": r}, *[el(x, None, text=y) for x, y in ps]) for n, r, ps in res]
    ctx = parse(["ea", "eb"], extended("link:referenceLink", LINK, locator("A", "ea"), locator("B", "eb"), *(els + [arc("link:referenceArc", f, t, REF) for f, t in arcs])))
    S.check(codes(ctx) == [], "no error")
    roots = [r for n in networks(ctx, ReferenceNetwork, LINK, physical=True) for r in n.get_roots() if r.points_to() == "report element" and r.get_children()]
    for a, ident in (("A", "ea"), ("B", "eb")):
        want = [r for f, t in arcs if f == a for r in res if r[0] == t]
        hit = [r for r in roots if r.get_report_element().get_id() == ident]
        S.check(len(hit) == (1 if want else 0), "an element with references has one node")
        if not want:
            continue
        ch = hit[0].get_children()
        S.check(len(ch) == len(want), "an element has exactly the references that arcs lead to")
        for c, (n, r, ps) in zip(ch, want):
            x = c.get_resource()
            S.check(x.get_label() == n and x.get_role() == (r or "http://www.xbrl.org/2003/role/reference"), "a reference has its label and role")
            S.check(sorted(x.get_content()) == sorted([k.split(":")[1] for k, v in ps]), "a reference has the parts written in it")
            for k, v in ps:
                S.check_eq(x.get_content()[k.split(":")[1]] or "", v, "a part has its text")
            S.cover("reference")


LANGS = ["en", "en-US", "en-GB", "EN", "EN-US", "en-CA", "en-us", "de", "fr-FR", "eng"]


def chosen(S, p):
    """The main label, and the label for preferred languages."""
    langs = [S.pick("lang%d" % i, p["langs"]) for i in range(p["k"])]
    parts = [label_el("t", l, S.pick("role%d" % i, ROLES[1:]), "%d" % i) for i, l in enumerate(langs)]
    ctx = parse(["ea"], extended("link:labelLink", LINK, locator("A", "ea"), *(parts + [arc("link:labelArc", "A", "t", LABEL)])))
    e = element(ctx, "ea")
    labels = e.get_labels()
    S.check([str(l) for l in labels] == [str(i) for i in range(p["k"])], "labels in the order of the link")
    english = [i for i, l in enumerate(langs) if l.lower().split("-")[0] == "en"]
    main = str(e.select_main_label())
    if not labels:
        S.check(main == "NO_LABEL", "an element without labels says so")
        S.cover("none")
    elif english:
        S.check(int(main) in english, "the main label is English if there is an English one")
        S.cover("english")
    else:
        S.check(main == "0", "and the first one otherwise")
        S.cover("other")
    aspect = Aspect("ex:D", labels)
    S.check(str(aspect.select_main_label()) == main, "an aspect with these labels has the same main label")
    S.check(all(aspect.has_label_with_language(l) is (l in langs) for l in LANGS) and aspect.get_labels() == labels, "an aspect has its labels")
    for l in LANGS:
        S.check(e.has_label_with_language(l) is (l in langs), "whether there is a label in a language")
    for r in ROLES[1:]:
        S.check(e.has_label_with_role(r) is any(x.get_label_role() == r for x in labels), "whether there is a label in a role")
    svc = TranslationService()
    exact = S.pick("exact", [True, False])
    svc.set_match_locale(exact)
    wish = [S.pick("wish%d" % i, p["wishes"]) for i in range(p["w"])]
    want = None
    for w in wish:
        if want is None:
            if w == "":
                want = "default"
            else:
                fit = [i for i, l in enumerate(langs) if (l.lower() == w.lower() if exact else l.lower().split("-")[0] == w.lower().split("-")[0])]
                if fit:
                    want = str(fit[0])
    if want is None:
        S.check(raises(svc.get_from_labels, labels, wish) == "ValueError", "no label for the languages")
        S.cover("no label")
        return
    got = svc.get_from_labels(labels, wish, "default")
    S.check(got == want, "the first label in the most preferred language that has one")
    S.cover("wished")


def many(S, p):
    """Four elements with ten labels each in three links of two documents, and references with six parts."""
    ids = ["e%d" % i for i in range(4)]
    free = S.str("text", "ab &", 1, 2)
    at = tuple(S.pick("at", p["at"]))
    want, links = {i: [] for i in ids}, []
    for k in range(3):
        parts = [locator("L" + i, i) for i in ids]
        for n, i in enumerate(ids):
            for j in range(4 if k < 2 else 2):
                t = free if at == (k, n, j) else "%d-%d-%d" % (k, n, j)
                lang, role = ["en", "de", "fr-CH", "it"][(j + k) % 4], ROLES[1:][(j // 2) % 2]
                parts.append(label_el("t%s%d" % (i, j % 3), lang, role, t))
                want[i].append((lang, role, t))
            for j in range(3 if k < 2 else 2):
                parts.append(arc("link:labelArc", "L" + i, "t%s%d" % (i, j), LABEL))
        if S.pick("spread%d" % k, [0, 1]):
            # the arcs first, then the labels and the locators
            parts = parts[::-1]
        links.append(extended("link:labelLink", LINK + ("" if k < 2 else "2"), *parts))
    names = ["Name", "Number", "Section", "Paragraph", "Clause", "Publisher"]
    v = S.str("value", "ab1", 1, 2)
    pos = S.pick("part", p["part"])
    vals = [v if j == pos else "v%d" % j for j in range(6)]
    refs = [locator("L" + i, i) for i in ids]
    for n, i in enumerate(ids):
        refs += [el("link:reference", {"xlink:type": "resource", "xlink:label": "r" + i}, *[el("link:" + x, None, text=y) for x, y in zip(names, vals)]), arc("link:referenceArc", "L" + i, "r" + i, REF)]
    trees = [("ex.xsd", schema(NS["ex"], *[(i, i.upper()) for i in ids])), ("l.xml", linkbase(*links[:2])), ("m.xml", linkbase(links[2], extended("link:referenceLink", LINK, *refs))), ("i.xml", instance())]
    ctx = new_context(trees)
    XMLFilingParser(ctx).parse()
    S.check(codes(ctx) == [], "no error")
    for i in ids:
        got = element(ctx, i).get_labels()
        S.check(len(got) == len(want[i]), "an element has exactly the labels that arcs lead to from it")
        for w in want[i]:
            S.check(len([g for g in got if str(g) == w[2] and g.get_language() == w[0] and g.get_label_role() == w[1]]) == 1, "each label with its text, language and role")
    roots = [r for n in networks(ctx, ReferenceNetwork, LINK, physical=True) for r in n.get_roots() if r.points_to() == "report element" and r.get_children()]
    for i in ids:
        hit = [r for r in roots if r.get_report_element().get_id() == i]
        S.check(len(hit) == 1 and len(hit[0].get_children()) == 1, "an element has its reference")
        x = hit[0].get_children()[0].get_resource().get_content()
        S.check(len(x) == 6, "a reference has the parts written in it")
        for a, b in zip(names, vals):
            S.check_eq(x[a], b, "a part has its text")
    S.cover("reached")


HARNESSES = [
    Harness(many, quick=[dict(at=[(0, 0, 3), (1, 3, 2), (2, 3, 1)], part=[0, 5])], thorough=[dict(at=[(k, n, j) for k in range(3) for n in range(4) for j in range(2)], part=[0, 3, 5], _split={"at": 24})], covers=["reached"], bounds="four elements with ten labels each in three links of two documents, one text symbolic, and references with six parts"),
    Harness(
        graph,
        quick=[
            dict(els=3, res=2, arcs=2, links=1, langs=["en"], roles=[None], inherit=[None], n=1, first=1),
            dict(els=2, res=2, arcs=1, links=1, langs=["en", "de", None], roles=ROLES, inherit=[None, "fr"], n=0),
            dict(els=2, res=1, arcs=1, links=2, langs=["en", None], roles=[None], inherit=[None, "fr"], n=1),
            dict(els=1, res=3, arcs=2, links=1, langs=["en", "de"], roles=[None], inherit=[None], n=0),
        ],
        thorough=[
            dict(els=3, res=3, arcs=3, links=1, langs=["en"], roles=[None], inherit=[None], n=1, first=1, _split={"name0": 2, "name1": 2, "locs": 2}),
            dict(els=2, res=3, arcs=1, links=1, langs=["en", "de", None], roles=ROLES[:2], inherit=[None, "fr"], n=0, _split={"name0": 2, "name1": 2, "locs": 2}),
            dict(els=2, res=2, arcs=2, links=2, langs=["en", None], roles=[None], inherit=[None, "fr"], n=0, _split={"name0": 2, "name1": 2, "locs": 2}),
        ],
        covers=["reached"],
        bounds="2-3 elements with distinct or shared locator labels, 1-3 label resources, 1-2 (3) arcs, 1-2 links",
    ),
    Harness(text, quick=[dict(alpha="a &<>\u00e9\n", n=1)], thorough=[dict(alpha="a &<>\u00e9\n", n=2)], covers=["reached"], bounds="four texts of up to 1 (2) characters around nested mark-up"),
    Harness(loose, quick=[dict(n=2)], covers=["orphan", "only", "dangling", "nosource", "missing", "noarcs", "twice"], bounds="eight irregular links beside a regular one in both orders"),
    Harness(refs, quick=[dict(res=1, parts=2, arcs=1, roles=2, skip=0, lo=0), dict(res=2, parts=1, arcs=2, roles=1, skip=2, lo=1)], thorough=[dict(res=2, parts=2, arcs=2, roles=1, skip=1, lo=1, _split={"part00": 3, "part10": 3}), dict(res=2, parts=1, arcs=2, roles=2, skip=0, lo=0, _split={"part00": 4, "part10": 4})], covers=["reference"], bounds="1-2 references of 1-2 parts, 2 arcs"),
    Harness(
        chosen,
        quick=[dict(k=k, langs=LANGS, w=1, wishes=["en", "EN-us", "de", "de-CH", ""]) for k in (0, 1)] + [dict(k=2, langs=LANGS, w=2, wishes=["en-us", "de", ""], _split={"lang0": 5})],
        thorough=[dict(k=0, langs=LANGS, w=1, wishes=["en", ""]), dict(k=3, langs=LANGS[:8], w=2, wishes=["en-us", "de", "", "en", "de-CH"], _split={"lang0": 8})],
        covers=["none", "english", "other", "wished", "no label"],
        bounds="up to 2 (3) labels in ten languages, up to two preferred languages, with and without regions",
    ),
]
ASSUMPTIONS = ["the prefix xlink is used for XLink", "ids are unique across the schemas of the filing", "the parts of a reference have different local names"]
