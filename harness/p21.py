"""P21: tables and languages."""
import csv
import os

from harness.lib import *
from sx.api import Harness
from sx.state import watch
import brel.brel_filing
import brel.config.brel_config
from brel.config.brel_config import BrelConfig
from brel.data.factory import create_translation_service

PROPERTY = "P21"


class Table:
    """Stand-in for pandas.DataFrame: the rows it is made of."""

    def __init__(self, data=(), **k):
        self.rows = list(data)

    @classmethod
    def from_records(cls, data, **k):
        return cls(data)


class pd_stand_in:
    DataFrame = Table


REAL_PD = brel.brel_filing.pd
REAL_LOCALE = brel.config.brel_config.getdefaultlocale
REAL_PARAMS = dict(BrelConfig.output_params)


def texts():
    """The texts of the translations file that the tables below use, read here once and independently."""
    path = os.path.join(os.path.dirname(brel.config.brel_config.__file__), "translations.csv")
    with open(path, encoding="utf-8-sig") as f:
        out = {}
        for ns, name, lang, loc, text in list(csv.reader(f))[1:]:
            if ns.rsplit("/", 1)[1] != "unit" or name == "USD":
                out.setdefault((ns.rsplit("/", 1)[1], name), []).append((lang + "-" + loc, text))
        return out


TEXTS = texts()
try:
    SERVICE = watch(create_translation_service())
except Exception:
    SERVICE = None
AXES = {
    "concept": [("en-US", "Concept [Axis]"), ("fr-FR", "Concept [Axe]"), ("de-DE", "Konzept [Achse]"), ("es-ES", "Concepto [Eje]")],
    "period": [("en-US", "Period [Axis]"), ("fr-FR", "Période [Axe]"), ("de-DE", "Periode [Achse]"), ("es-ES", "Periodo [Eje]")],
    "entity": [("en-US", "Entity [Axis]"), ("fr-FR", "Entité [Axe]"), ("de-DE", "Organisation [Achse]"), ("es-ES", "Entidad [Eje]")],
    "unit": [("en-US", "Unit [Axis]"), ("fr-FR", "Unité [Axe]"), ("de-DE", "Einheit [Achse]"), ("es-ES", "Unidad [Eje]")],
}


def with_settings(S, fn, library=None, locale=None):
    """fn() with pandas, the locale and the library's settings set aside."""
    brel.brel_filing.pd = pd_stand_in
    brel.config.brel_config.getdefaultlocale = lambda: (locale, "UTF-8")
    BrelConfig.output_params = dict(REAL_PARAMS)
    if library is not None:
        Filing.set_global_output_params(**library)
    try:
        return fn()
    finally:
        brel.brel_filing.pd = REAL_PD
        brel.config.brel_config.getdefaultlocale = REAL_LOCALE
        BrelConfig.output_params = dict(REAL_PARAMS)


class Item:
    """Stand-in for a fact: records the languages it is asked for; has texts in some of them."""

    def __init__(self, lacks):
        self.asked, self.lacks = [], lacks

    def convert_to_dict(self, languages, service):
        self.asked.append(list(languages))
        if len(languages) == 1 and languages[0] in self.lacks:
            raise KeyError("no text")
        return {"item": self, "languages": list(languages)}


FLAGS = ["allow_system_language", "allow_report_language", "allow_default"]


def preferred(S, p):
    """The languages: call, filing, library, system, report, none; each once; the nearest setting decides."""
    call = [S.str("call%d" % i, p["alpha"], 1) for i in range(p["nc"])]
    filing = [S.str("filing%d" % i, p["alpha"], 1) for i in range(p["nf"])]
    library = [S.str("library%d" % i, p["alpha"], 1) for i in range(p["nl"])]
    report = [p.get("long", "") + S.str("report%d" % i, p["alpha"], 1) for i in range(p["nr"])]
    system = S.str("system", p["alpha"], 1) if p["sys"] else None
    locale = system
    if system and p["sys"] == 2:
        system, locale = system + "-US", system + "_US"
    levels = [{}, {}, {}]
    flags = {}
    for flag in FLAGS:
        flags[flag] = False
        for lv in range(3):
            v = S.pick("%s%d" % (flag, lv), p["values"]) if flag in p["free"] else [None, None, True][lv]
            if v is not None:
                levels[lv][flag] = v
        for lv in (2, 1, 0):
            if flag in levels[lv]:
                flags[flag] = levels[lv][flag]
    one = S.pick("one", [0, 1]) if len(call) == 1 else 0
    if call or S.pick("empty", [0, 1]):
        levels[0]["languages"] = call[0] if one else call
    if filing:
        levels[1]["languages"] = filing
    if library:
        levels[2]["languages"] = library[0] if one else library
    levels[0]["allow_mixed"] = True
    ctx = new_context([("d%d.xml" % i, el("link:label", {"xml:lang": r})) for i, r in enumerate(report)])
    item = Item([])
    ctx.get_translation_service = Service
    ctx.get_fact_repository = lambda: Items([item, item])

    def run():
        f = Filing(ctx)
        if levels[1]:
            f.set_filing_output_params(**levels[1])
        return f.generate_fact_table_pandas_df(**levels[0])

    t = with_settings(S, run, levels[2], locale)
    want = []
    for x in call + filing + library + ([system] if system and flags["allow_system_language"] else []) + (report if flags["allow_report_language"] else []) + ([""] if flags["allow_default"] else []):
        if x not in want:
            want.append(x)
    S.check_eq(item.asked, [want, want], "texts are looked for in the languages of the call, the filing, the library, the system and the report, in this order, as far as the settings allow")
    S.check(len(t.rows) == 2, "a row for every fact")
    S.cover("reached")


class Service:
    """Stand-in for the translations where no texts are needed."""

    def set_match_locale(self, match):
        self.match = match


class Items:
    def __init__(self, items):
        self.items = items

    def get_all(self):
        return list(self.items)


def unmixed(S, p):
    """A table that does not mix languages is in the first language that has all texts."""
    langs = ["l%d" % i for i in range(p["n"])]
    items = [Item([x for x in langs + [""] if ((k, x) in [tuple(y) for y in p["lacks"]] if "lacks" in p else S.pick("lacks%d%s" % (k, x), [0, 1]))]) for k in range(p["k"])]
    default = S.pick("default", [True, False])
    ctx = new_context()
    ctx.get_translation_service = Service
    ctx.get_fact_repository = lambda: Items(items)
    settings = dict(languages=list(langs), allow_default=default, allow_system_language=False, allow_report_language=False, allow_mixed=False)

    def run():
        f = Filing(ctx)
        if S.pick("filing level", [0, 1]):
            f.set_filing_output_params(**settings)
            return f.generate_fact_table_pandas_df()
        return f.generate_fact_table_pandas_df(**settings)

    tried = langs + ([""] if default else [])
    whole = [x for x in tried if all(x not in i.lacks for i in items)]
    if not tried or (not whole and items):
        if tried:
            S.check(raises(with_settings, S, run) == "ValueError", "no language has all texts: an error rather than a table without the facts")
            S.cover("none")
        else:
            t = with_settings(S, run)
            S.check(len(t.rows) == len(items), "a row for every fact")
            S.cover("no language")
        return
    t = with_settings(S, run)
    S.check(len(t.rows) == len(items), "a row for every fact")
    for row, item in zip(t.rows, items):
        S.check(row["item"] is item, "the rows are in the order of the facts")
        S.check_eq(row["languages"], [whole[0]], "the table is in the first language that has all texts")
    S.cover("table")


def pick_text(S, pairs, langs, match_locale, default):
    """The text in the first language that has one."""
    for x in langs:
        if x == "":
            return default
        for have, text in pairs:
            a, b = x.lower(), have.lower()
            if not match_locale:
                a, b = a.split("-")[0], b.split("-")[0]
            if a == b:
                return text
    return None


def literal(S, kind, name, langs, match):
    return pick_text(S, TEXTS[(kind, name)], langs, match, name) if (kind, name) in TEXTS else name


def label_linkbase(name, entries):
    link = el("link:labelLink", {"xlink:type": "extended", "xlink:role": "http://www.xbrl.org/2003/role/link"})
    for i, (href, lang, text) in enumerate(entries):
        link.append(el("link:loc", {"xlink:type": "locator", "xlink:href": href, "xlink:label": "l%d" % i}))
        link.append(el("link:label", {"xlink:type": "resource", "xlink:label": "r%d" % i, "xlink:role": "http://www.xbrl.org/2003/role/label", "xml:lang": lang}, text=text))
        link.append(el("link:labelArc", {"xlink:type": "arc", "xlink:arcrole": "http://www.xbrl.org/2003/arcrole/concept-label", "xlink:from": "l%d" % i, "xlink:to": "r%d" % i}))
    return (name, el("link:linkbase", None, link, nsmap=nsmap("link", "xlink")))


DIMENSION = {"abstract": "true", "substitutionGroup": "xbrldt:dimensionItem", "type": "xbrli:stringItemType"}


def maybe(S, name, p, options):
    """A free choice where the parameter names it, the first option otherwise."""
    return S.pick(name, options) if name.rstrip("0123456789") in p["free"] else options[0]


def settings_of(S, p):
    match = maybe(S, "match", p, [False, True])
    langs = [S.str("lang%d" % i, p["alpha"], 2) + maybe(S, "region%d" % i, p, ["", "-US", "-DE"]) for i in range(p["nl"])]
    default = maybe(S, "default", p, [True, False])
    tried = langs + ([""] if default else [])
    return match, tried, dict(languages=langs, match_locale=match, allow_default=default, allow_system_language=False, allow_report_language=False, allow_mixed=True)


def compare(S, run, rows, missing):
    if missing and rows:
        S.check(raises(with_settings, S, run) in ("ValueError", "KeyError"), "a text that no language has is an error, not a gap")
        S.cover("missing")
        return
    t = with_settings(S, run)
    S.check(len(t.rows) == len(rows), "a row for every one")
    for g, w in zip(t.rows, rows):
        S.check_eq(sorted(g), sorted(w), "a column for each part, named in the first language that has a name")
        S.check_eq([g[k] for k in sorted(w)], [w[k] for k in sorted(w)], "each cell holds what belongs to its row and column, in the first language that has a text")
    S.cover("table")


def open_with_service(trees):
    ctx = new_context(trees)
    f = Filing(XMLFilingParser(ctx).parse())
    if SERVICE is not None:
        ctx.get_translation_service = lambda: SERVICE
    return f


def facts(S, p):
    """The fact table: every fact, its id, its value and all its characteristics, in every language."""
    match, tried, settings = settings_of(S, p)
    labels = [("ex.xsd#ex_A", S.str("l%d" % i, p["alpha"], 2) + maybe(S, "labelregion%d" % i, p, ["", "-US"]), "A%d" % i) for i in range(p["labels"])]
    typed = dict(DIMENSION)
    typed["xbrldt:typedDomainRef"] = "#ex_dom"
    tax = schema(
        NS["ex"],
        ("ex_A", "A"),
        ("ex_S", "S", {"type": "xbrli:stringItemType"}),
        ("ex_T", "T", typed),
        ("ex_U", "U", typed),
        extra=[el("xs:element", {"id": "ex_dom", "name": "dom", "type": "xs:string"})],
    )
    parts, want = [unit_el("USD")], []
    for i in range(p["k"]):
        dims = maybe(S, "dims%d" % i, p, [(), ("T",), ("T", "U")])
        period = maybe(S, "period%d" % i, p, [0, 1])
        ident = S.str("entity%d" % i, "ab", 1)
        vals = {d: S.str("dim%d%s" % (i, d), "xy", 1) for d in dims}
        parts.append(context_el("c%d" % i, duration("2020-01-01", "2020-12-31") if period else instant("2020-12-31"), ident=ident, scenario=[el("xbrldi:typedMember", {"dimension": "ex:" + d}, el("ex:dom", None, text=vals[d])) for d in dims]))
        fid = maybe(S, "id%d" % i, p, ["f%d" % i, None])
        numeric = maybe(S, "numeric%d" % i, p, [1, 0])
        value = S.str("value%d" % i, "12", 1, 2)
        parts.append(el("ex:A" if numeric else "ex:S", {"id": fid, "contextRef": "c%d" % i, "unitRef": "USD" if numeric else None, "decimals": "0" if numeric else None}, text=value))
        want.append((fid, value, numeric, ident, period, vals))
    f = open_with_service([("i.xml", instance(*parts)), ("ex.xsd", tax), label_linkbase("lab.xml", labels)])
    core = maybe(S, "core", p, [0, 1])

    def run():
        return (f.generate_core_fact_table_pandas_df if core else f.generate_fact_table_pandas_df)(**settings)

    # the rows come in the order in which the filing gives its facts
    left, want = want, []
    for x in f.get_all_facts():
        w = [w for w in left if w[0] == x.get_id()][0]
        left.remove(w)
        want.append(w)
    S.check(left == [], "every fact is read")
    if core:
        want = [w for w in want if not w[5]]
    rows, missing = [], False
    for fid, value, numeric, ident, period, vals in want:
        have = {"entity": "{http://s}" + ident, "period": "2020-01-01/2020-12-31" if period else "2020-12-31"}
        if tried:
            have["concept"] = pick_text(S, [(x[1], x[2]) for x in labels] if numeric else [], tried, match, "A" if numeric else "S")
            if numeric:
                have["unit"] = literal(S, "unit", "USD", tried, match)
            row = {pick_text(S, AXES[k], tried, match, k): v for k, v in have.items()}
            for d, v in vals.items():
                row["ex:" + d if "" in tried else None] = v
            row[literal(S, "literal", "id", tried, match)] = fid if fid is not None else literal(S, "literal", "none", tried, match)
            row[literal(S, "literal", "value", tried, match)] = value
        else:
            row = dict(have, concept="ex:A" if numeric else "ex:S", id=fid if fid is not None else "", value=value, **{"ex:" + d: v for d, v in vals.items()})
            if numeric:
                row["unit"] = "USD"
        if any(k is None or v is None for k, v in row.items()):
            missing = True
        rows.append(row)
    compare(S, run, rows, missing)


def sequence(S, p):
    """Tables made one after the other: each is as its own settings say."""
    labels = [("ex.xsd#ex_A", lang, "A " + lang) for lang in ("de", "en-US", "en")]
    fact = el("ex:A", {"id": "f", "contextRef": "c", "unitRef": "USD", "decimals": "0"}, text="1")
    f = open_with_service([("i.xml", instance(unit_el("USD"), context_el("c"), fact)), ("ex.xsd", schema(NS["ex"], ("ex_A", "A"))), label_linkbase("lab.xml", labels)])
    for i in range(p["steps"]):
        match = S.pick("match%d" % i, [True, False])
        lang = S.str("lang%d" % i, "den", 2) + S.pick("region%d" % i, ["", "-US"])
        mixed = S.pick("mixed%d" % i, [True, False])
        langs = [lang, ""] if mixed else [lang]
        settings = dict(languages=[lang], match_locale=match, allow_default=mixed, allow_system_language=False, allow_report_language=False, allow_mixed=mixed)
        row = {pick_text(S, AXES[k], langs, match, k): v for k, v in (("entity", "{http://s}e1"), ("period", "2020-12-31"), ("unit", literal(S, "unit", "USD", langs, match)), ("concept", pick_text(S, [(x[1], x[2]) for x in labels], langs, match, "A")))}
        row[literal(S, "literal", "id", langs, match)] = "f"
        row[literal(S, "literal", "value", langs, match)] = "1"
        compare(S, lambda: f.generate_fact_table_pandas_df(**settings), [row], any(k is None or v is None for k, v in row.items()))


KINDS = {
    "concept": {"type": "xbrli:monetaryItemType"},
    "abstract": {"abstract": "true", "type": "xbrli:stringItemType"},
    "dimension": DIMENSION,
    "hypercube": {"abstract": "true", "substitutionGroup": "xbrldt:hypercubeItem", "type": "xbrli:stringItemType"},
}
TYPES = {"xbrli:monetaryItemType": "monetaryItemType", "xbrli:stringItemType": "stringItemType", "ex:ownType": "ownType"}


def elements(S, p):
    """The table of report elements: every element with its label and its properties."""
    match, tried, settings = settings_of(S, p)
    decl, labels, rows, missing = [], [], [], False
    lit = lambda kind, name: literal(S, kind, name, tried, match) if tried else name
    flag = lambda b: literal(S, "boolean", "true" if b else "false", tried, match) if tried else b
    for i in range(p["k"]):
        kind = maybe(S, "kind%d" % i, p, list(KINDS))
        name = "N" + S.str("name%d" % i, "ab", 1) + str(i)
        a = dict(KINDS[kind])
        nil = maybe(S, "nillable%d" % i, p, ["true", "false", "1", "0"])
        a["nillable"] = nil
        period = maybe(S, "periodtype%d" % i, p, ["instant", "duration"])
        a["xbrli:periodType"] = period
        balance = maybe(S, "balance%d" % i, p, [None, "debit", "credit"]) if kind == "concept" else None
        if balance:
            a["xbrli:balance"] = balance
        dtype = maybe(S, "type%d" % i, p, list(TYPES))
        if kind == "concept":
            a["type"] = dtype
        typed = kind == "dimension" and maybe(S, "typed%d" % i, p, [0, 1])
        if typed:
            a["xbrldt:typedDomainRef"] = "#ex_dom"
        decl.append(("ex_%d" % i, name, a))
        mine = [(S.str("l%d%d" % (i, j), p["alpha"], 2), "label %d %d" % (i, j)) for j in range(maybe(S, "labels%d" % i, p, [p["labels"], 0]))]
        labels += [("ex.xsd#ex_%d" % i,) + m for m in mine]
        english = [t for lang, t in mine if lang == "en"]
        main = english[0] if english else mine[0][1] if mine else "NO_LABEL"
        row = {lit("literal", "name"): "ex:" + name, lit("literal", "label"): pick_text(S, mine, tried, match, main) if tried else main, lit("literal", "report-element-type"): lit("report-element", kind)}
        if kind == "concept":
            row[lit("literal", "period-type")] = lit("period-type", period)
            row[lit("literal", "balance-type")] = lit("balance-type", balance) if balance else lit("literal", "none") if tried else None
            row[lit("literal", "nillable")] = flag(nil in ("true", "1"))
            row[lit("literal", "data-type")] = lit("data-type", TYPES[dtype]) if tried else dtype
        if kind == "dimension":
            row[lit("literal", "is-explicit")] = flag(not typed)
            row[lit("literal", "dimension-type") if tried else "dimension_type"] = lit("data-type", "string") if typed and tried else "xs:string" if typed else lit("literal", "none") if tried else None
        if tried and any(k is None or v is None for k, v in row.items()):
            missing = True
        rows.append(row)
    tax = schema(NS["ex"], *decl, extra=[el("xs:element", {"id": "ex_dom", "name": "dom", "type": "xs:string"}), el("xs:complexType", {"name": "ownType"}, el("xs:simpleContent", None, el("xs:restriction", {"base": "xbrli:stringItemType"})))])
    f = open_with_service([("i.xml", instance()), ("ex.xsd", tax), label_linkbase("lab.xml", labels)])

    def run():
        return f.generate_report_elements_as_pandas_df(**settings)

    compare(S, run, rows, missing)
    t = with_settings(S, f.generate_labels_as_pandas_df)
    got = [(r["report_element"].clark_notation(), r["language"], r["text"], r["label_role"]) for r in t.rows]
    S.check_eq(got, [("{" + NS["ex"] + "}" + decl[int(h[-1])][1], lang, text, "http://www.xbrl.org/2003/role/label") for h, lang, text in labels], "the table of labels has every label once, with its element, language and role")


def components(S, p):
    """The table of components: every component with its role, definition and kinds of networks."""
    match, tried, settings = settings_of(S, p)
    kinds = ["presentation", "calculation", "definition"]
    types, links, rows, missing = [], [], [], False
    for i in range(p["k"]):
        uri = "http://r/" + S.str("role%d" % i, "ab", 1) + str(i)
        info = S.str("info%d" % i, "xy", 1)
        used = [maybe(S, "%s%d" % (k, i), p, [1, 0]) for k in kinds]
        types.append(el("link:roleType", {"roleURI": uri, "id": "r%d" % i}, el("link:definition", None, text=info), *[el("link:usedOn", None, text="link:%sLink" % k) for k in kinds]))
        for k, u in zip(kinds, used):
            if u:
                arc = {"presentation": "http://www.xbrl.org/2003/arcrole/parent-child", "calculation": "http://www.xbrl.org/2003/arcrole/summation-item", "definition": "http://xbrl.org/int/dim/arcrole/domain-member"}[k]
                links.append(
                    el(
                        "link:%sLink" % k,
                        {"xlink:type": "extended", "xlink:role": uri},
                        el("link:loc", {"xlink:type": "locator", "xlink:href": "ex.xsd#ex_A", "xlink:label": "a"}),
                        el("link:loc", {"xlink:type": "locator", "xlink:href": "ex.xsd#ex_B", "xlink:label": "b"}),
                        el("link:%sArc" % k, {"xlink:type": "arc", "xlink:arcrole": arc, "xlink:from": "a", "xlink:to": "b", "order": "1", "weight": "1" if k == "calculation" else None}),
                    )
                )
        lit = lambda kind, name: literal(S, kind, name, tried, match)
        row = {lit("literal", "network-identifier"): uri, lit("literal", "info"): info}
        for k, u in zip(kinds, used):
            row[lit("literal", k + "-network")] = lit("boolean", "true" if u else "false")
        if any(k is None or v is None for k, v in row.items()):
            missing = True
        rows.append(row)
    tax = schema(NS["ex"], ("ex_A", "A"), ("ex_B", "B"))
    tax.insert(0, el("xs:annotation", None, el("xs:appinfo", None, *types)))
    f = open_with_service([("i.xml", instance()), ("ex.xsd", tax), ("l.xml", el("link:linkbase", None, *links, nsmap=nsmap("link", "xlink")))])
    S.check_eq([c.get_URI() for c in f.get_all_components()], f.get_all_component_uris(), "the roles of the components")

    def run():
        return f.generate_components_as_pandas_df(**settings)

    compare(S, run, rows, missing)


def loading(S, p):
    """The translations are found wherever the program runs."""
    here = os.getcwd()
    os.chdir("/")
    try:
        fails = raises(create_translation_service)
    finally:
        os.chdir(here)
    S.check(fails is None, "the translations are found in every working directory")
    S.cover("reached")


def translations(S, p):
    """A text is the one of the translations file in the language asked for."""
    S.check(SERVICE is not None, "the translations are there")
    match = S.pick("match", [True, False])
    SERVICE.set_match_locale(match)
    lang = S.str("lang", p["alpha"], 2) + S.pick("region", ["", "-US", "-de", "-IT"])
    for kind, name in p["names"]:
        want = literal(S, kind, name, [lang], match)
        fails = raises(SERVICE.get, kind + ":" + name, [lang])
        if want is None:
            S.check(fails == "KeyError", "a missing text is an error")
            S.cover("missing")
        else:
            S.check(fails is None and SERVICE.get(kind + ":" + name, [lang]) == want, "the text is the one in the language asked for")
            S.cover("text")


HARNESSES = [
    Harness(
        preferred,
        quick=[
            dict(alpha="ab", nc=1, nf=1, nl=1, nr=1, sys=1, values=[True], free=[]),
            dict(alpha="ab", nc=0, nf=1, nl=1, nr=1, sys=1, values=[True], free=[]),
            dict(alpha="ab", nc=0, nf=0, nl=0, nr=0, sys=2, values=[True], free=[]),
            dict(alpha="a", nc=1, nf=0, nl=0, nr=2, sys=2, values=[None, True, False], free=["allow_system_language"]),
            dict(alpha="ab", nc=0, nf=0, nl=0, nr=2, sys=1, values=[None, True, False], free=["allow_report_language"]),
            dict(alpha="ab", nc=1, nf=0, nl=0, nr=1, sys=0, values=[None, True, False], free=["allow_default"]),
            dict(alpha="ab", nc=0, nf=0, nl=0, nr=1, sys=1, values=[None, False], free=FLAGS),
            dict(alpha="abc", nc=4, nf=0, nl=0, nr=0, sys=1, values=[True], free=[]),
            dict(alpha="abc", nc=0, nf=0, nl=1, nr=4, sys=0, values=[True], free=[]),
            dict(alpha="ab", nc=1, nf=0, nl=0, nr=2, sys=0, values=[True], free=[], long="zh-Hant-CN-x-"),
        ],
        thorough=[
            dict(alpha="abc", nc=1, nf=1, nl=1, nr=2, sys=1, values=[True], free=[]),
            dict(alpha="ab", nc=2, nf=2, nl=1, nr=1, sys=2, values=[True], free=[]),
            dict(alpha="ab", nc=1, nf=1, nl=0, nr=2, sys=2, values=[None, True, False], free=["allow_system_language", "allow_report_language"]),
            dict(alpha="a", nc=0, nf=0, nl=0, nr=1, sys=1, values=[None, True, False], free=["allow_report_language", "allow_default"]),
            dict(alpha="ab", nc=0, nf=0, nl=0, nr=1, sys=1, values=[None, False], free=FLAGS),
        ],
        covers=["reached"],
        bounds="1-4 languages of one free character each in call, filing, library, system and report, with free or listed switches at three levels",
    ),
    Harness(unmixed, quick=[dict(n=2, k=2), dict(n=0, k=1), dict(n=1, k=0), dict(n=6, k=6, lacks=[(0, "l0"), (3, "l1"), (4, "l2"), (5, "l3"), (5, "l5")]), dict(n=5, k=4, lacks=[(i % 4, "l%d" % i) for i in range(5)])], thorough=[dict(n=3, k=2), dict(n=2, k=3), dict(n=0, k=1), dict(n=1, k=0)], covers=["table", "none", "no language"], bounds="up to 2-3 languages and the default, 1-3 facts that lack texts in any of them; two filings of 4 and 6 facts with 5 and 6 languages"),
    Harness(
        facts,
        quick=[
            dict(alpha="den", nl=1, labels=2, k=1, free=["match", "default"]),
            dict(alpha="den", nl=1, labels=1, k=1, free=["match", "region", "labelregion", "id"]),
            dict(alpha="den", nl=2, labels=1, k=1, free=["default"]),
            dict(alpha="de", nl=1, labels=0, k=1, free=["default", "dims", "numeric"]),
            dict(alpha="de", nl=0, labels=1, k=2, free=["dims", "numeric", "core", "default"], _split={"dims0": 3, "numeric0": 2}),
            dict(alpha="de", nl=1, labels=0, k=2, free=["id", "numeric", "period"], _split={"numeric0": 2, "period0": 2}),
        ],
        thorough=[
            dict(alpha="den", nl=1, labels=2, k=1, free=["match", "default", "labelregion", "id"]),
            dict(alpha="den", nl=2, labels=1, k=1, free=["match", "default", "region"]),
            dict(alpha="de", nl=0, labels=1, k=2, free=["dims", "numeric", "core", "default", "id"], _split={"dims0": 3, "numeric0": 2}),
            dict(alpha="de", nl=1, labels=0, k=2, free=["id", "numeric", "period"], _split={"numeric0": 2, "period0": 2}),
            dict(alpha="de", nl=1, labels=0, k=3, free=["dims"], _split={"dims0": 3}),
            dict(alpha="desfriut", nl=1, labels=1, k=1, free=["match", "default", "numeric"]),
        ],
        covers=["table", "missing"],
        bounds="1-2 facts (thorough 3) with and without id, unit, dimensions, instants and durations, up to 2 languages and 2 labels of 2 free characters with regions",
    ),
    Harness(sequence, quick=[dict(steps=2, _split={"match0": 2, "region0": 2, "mixed0": 2})], thorough=[dict(steps=2), dict(steps=3, _split={"match0": 2, "region0": 2, "mixed0": 2, "match1": 2})], covers=["table", "missing"], bounds="2 (thorough 3) tables one after the other with any settings each, a language of 2 free characters"),
    Harness(
        elements,
        quick=[
            dict(alpha="den", nl=1, labels=2, k=1, free=["default"]),
            dict(alpha="den", nl=0, labels=2, k=1, free=["default", "kind", "typed", "labels"]),
            dict(alpha="de", nl=1, labels=1, k=1, free=["kind", "typed", "default"]),
            dict(alpha="de", nl=0, labels=1, k=1, free=["nillable", "periodtype", "balance", "type", "default"]),
            dict(alpha="d", nl=1, labels=0, k=1, free=["nillable", "periodtype", "balance", "type"]),
            dict(alpha="d", nl=0, labels=1, k=3, free=["kind", "labels"]),
        ],
        thorough=[
            dict(alpha="den", nl=1, labels=2, k=1, free=["default", "match", "kind"]),
            dict(alpha="den", nl=0, labels=2, k=2, free=["default", "kind", "typed"]),
            dict(alpha="de", nl=1, labels=1, k=1, free=["nillable", "periodtype", "balance", "type", "default"]),
            dict(alpha="d", nl=0, labels=1, k=3, free=["kind", "labels"]),
        ],
        covers=["table", "missing"],
        bounds="1-3 elements of four kinds with all their properties, up to 2 labels and one language of 2 free characters",
    ),
    Harness(
        components,
        quick=[dict(alpha="de", nl=1, k=1, free=["default", "presentation", "calculation", "definition"]), dict(alpha="d", nl=0, k=2, free=["presentation", "definition"])],
        covers=["table", "missing"],
        bounds="1-2 roles with any kinds of networks",
    ),
    Harness(loading, covers=["reached"], bounds="the working directory /"),
    Harness(translations, quick=[dict(alpha="desnirtuf", names=[("literal", "id"), ("literal", "none"), ("unit", "USD"), ("boolean", "true"), ("unit", "nope")])], covers=["missing", "text"], bounds="a language of 2 free characters with four regions, five texts"),
]
ASSUMPTIONS = ["pandas makes a table of the rows it is given (a stand-in records them)", "dimensions have prefixed names, which are no names of other columns", "labels have the standard role, or the first label in a language is the one to show"]
