"""Document builders shared by the harnesses (instrumented like them)."""
from lxml import etree

import brel  # noqa: F401  loaded once, before the workers fork
from brel import Filing, QName
from brel.contexts.filing_context import FilingContext
from brel.errors.error_factory_registry import error_factory_registry
from brel.parsers.xhtml_filing_parser import XHTMLFilingParser
from brel.parsers.xml_filing_parser import XMLFilingParser

NS = {
    "xbrli": "http://www.xbrl.org/2003/instance",
    "link": "http://www.xbrl.org/2003/linkbase",
    "xlink": "http://www.w3.org/1999/xlink",
    "xs": "http://www.w3.org/2001/XMLSchema",
    "xsi": "http://www.w3.org/2001/XMLSchema-instance",
    "xbrldi": "http://xbrl.org/2006/xbrldi",
    "xbrldt": "http://xbrl.org/2005/xbrldt",
    "iso4217": "http://www.xbrl.org/2003/iso4217",
    "ix": "http://www.xbrl.org/2013/inlineXBRL",
    "ixt": "http://www.xbrl.org/inlineXBRL/transformation/2020-02-12",
    "xhtml": "http://www.w3.org/1999/xhtml",
    "xml": "http://www.w3.org/XML/1998/namespace",
    "ex": "http://example.com/ex",
    "ey": "http://example.com/ey",
}


def q(name, ns=None):
    """prefix:local to Clark notation"""
    if ":" in name and name[0] != "{":
        p, l = name.split(":", 1)
        return "{" + NS[p] + "}" + l
    return name


def el(tag, attrs=None, *children, text=None, tail=None, nsmap=None):
    """An lxml element.  attrs: dict of prefixed names (None values skipped)."""
    e = etree.Element(q(tag), nsmap=nsmap)
    if attrs:
        for k, v in attrs.items():
            if v is not None:
                e.set(q(k), v)
    if text is not None:
        e.text = text
    if tail is not None:
        e.tail = tail
    for c in children:
        if c is not None:
            e.append(c)
    return e


def nsmap(*prefixes, **extra):
    m = {p: NS[p] for p in prefixes if p != "xml"}
    m.update(extra)
    return m


def new_context(trees=()):
    """A filing context holding the given [(uri, root element)] documents."""
    ctx = FilingContext()
    repo = ctx.get_xml_repository()
    for uri, root in trees:
        repo.add_etree(uri, root.getroottree())
    return ctx


def open_xml(trees):
    return Filing(XMLFilingParser(new_context(trees)).parse())


def open_xhtml(trees):
    return Filing(XHTMLFilingParser(new_context(trees)).parse())


def schema(target, *elements, extra=(), swap=False):
    """A taxonomy schema.  elements: (id, name, attribute overrides).  swap: ex and ey are bound the other way round."""
    m = nsmap("xs", "xbrli", "link", "xlink", "xbrldt", "ex", "ey")
    if swap:
        m["ex"], m["ey"] = m["ey"], m["ex"]
    root = el("xs:schema", {"targetNamespace": target, "elementFormDefault": "qualified"}, nsmap=m)
    for d in elements:
        root.append(concept_el(d[0], d[1], **{k.replace(":", "__"): v for k, v in (d[2] if len(d) > 2 else {}).items()}))
    for x in extra:
        root.append(x)
    return root


def concept_el(id, name, **over):
    a = {
        "id": id,
        "name": name,
        "type": "xbrli:monetaryItemType",
        "substitutionGroup": "xbrli:item",
        "nillable": "true",
        "abstract": "false",
        "xbrli:periodType": "instant",
    }
    for k, v in over.items():
        a[k.replace("__", ":")] = v
    return el("xs:element", a)


def context_el(id, period=None, scheme="http://s", ident="e1", segment=(), scenario=()):
    ent = el("xbrli:entity", None, el("xbrli:identifier", {"scheme": scheme}, text=ident))
    if segment:
        ent.append(el("xbrli:segment", None, *segment))
    c = el("xbrli:context", {"id": id}, ent, period if period is not None else instant("2020-12-31"))
    if scenario:
        c.append(el("xbrli:scenario", None, *scenario))
    return c


def instant(d):
    return el("xbrli:period", None, el("xbrli:instant", None, text=d))


def duration(a, b):
    return el("xbrli:period", None, el("xbrli:startDate", None, text=a), el("xbrli:endDate", None, text=b))


def unit_el(id, measure="iso4217:USD"):
    return el("xbrli:unit", {"id": id}, el("xbrli:measure", None, text=measure), nsmap=nsmap("xbrli", "iso4217", "ex"))


INST_NS = ("xbrli", "link", "xlink", "xsi", "xbrldi", "iso4217", "ex", "ey")


def instance(*children):
    return el("xbrli:xbrl", None, *children, nsmap=nsmap(*INST_NS))


def inline(body, resources, hidden=(), header=True):
    """An inline XBRL document: ix:header with resources, then body elements."""
    m = nsmap(*INST_NS, "ix", "ixt")
    m[None] = NS["xhtml"]
    root = el("xhtml:html", None, nsmap=m)
    root.append(el("xhtml:head", None))
    b = el("xhtml:body", None)
    h = el("ix:header", None)
    if hidden:
        h.append(el("ix:hidden", None, *hidden))
    h.append(el("ix:references", None, el("link:schemaRef", {"xlink:type": "simple", "xlink:href": "ex.xsd"})))
    h.append(el("ix:resources", None, *resources))
    b.append(el("xhtml:div", None, h))
    for c in body:
        b.append(c)
    root.append(b)
    return root


_NAMES = {}


def _names():
    if not _NAMES:
        for code in error_factory_registry:
            inst = error_factory_registry[code]()
            k = (inst.get_area(), inst.get_numeric_code())
            _NAMES.setdefault(k, []).append(code.name)
    return _NAMES


def codes(filing_or_ctx):
    """Names of the error codes reported, in order."""
    if hasattr(filing_or_ctx, "get_all_errors"):
        es = filing_or_ctx.get_all_errors()
    elif hasattr(filing_or_ctx, "get_error_repository"):
        es = filing_or_ctx.get_error_repository().get_all()
    else:
        es = filing_or_ctx.get_all()
    return [_names()[(e.get_area(), e.get_numeric_code())][0] for e in es]


def raises(fn, *a, **k):
    """The type name of the exception fn raises, or None."""
    try:
        fn(*a, **k)
    except Exception as e:
        return type(e).__name__
    return None
