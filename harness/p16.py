"""P16: the documents of a filing are those its references lead to."""
from io import BytesIO

from harness.files import *
from sx.api import Harness
from brel.contexts.factory import create_filing_context
from brel.parsers.XML.xml_parse_catalog import parse_catalog_xml

PROPERTY = "P16"

H = "http://h.example"
CAT = "urn:oasis:names:tc:entity:xmlns:xml:catalog"
# places of documents: local ones below the scratch directory, others on the web
PLACES = ["i.xml", "b.xsd", "x/C.xsd", "x/y/e.xsd", H + "/t/r.xsd", H + "/t/U/s.xsd"]


def remote(p):
    return p.startswith("http")


def spell(S, tag, src, dst, forms):
    """A reference from src to dst as it may be written."""
    form = S.pick("form" + tag, forms)
    if remote(dst):
        if not remote(src) or form == "absolute":
            return dst
        a, b = src[len(H) :], dst[len(H) :]
        if form == "root":
            return b
    else:
        a, b = "/" + src, "/" + dst
    rel = posixpath.relpath(b, posixpath.dirname(a))
    if form == "dot":
        return "./" + rel
    if form == "detour":
        d = posixpath.basename(posixpath.dirname(a))
        return "../" + d + "/" + rel if d else "q/../" + rel
    if form == "fragment":
        return rel + "#ea"
    if form == "absolute" or form == "root":
        return (dst if remote(dst) else posixpath.join(ROOT[0], dst))
    return rel


ROOT = [""]
KINDS = ["schemaRef", "linkbaseRef", "import", "include", "hint", "locator"]


def reference(kind, uri):
    if kind == "import":
        return el("xs:import", {"namespace": "http://n", "schemaLocation": uri})
    if kind == "include":
        return el("xs:include", {"schemaLocation": " " + uri + "\n"})
    if kind == "hint":
        return el("xs:note", {"xsi:schemaLocation": "\n\thttp://a\n%s  http://b\t%s " % (uri, uri)})
    if kind == "locator":
        return el("link:loc", {"xlink:type": "locator", "xlink:label": "l", "xlink:href": uri if "#" in uri else uri + "#f"})
    return el("link:" + kind, {"xlink:type": "simple", "xlink:href": uri})


def document(name, refs, *more):
    return el("xs:doc", {"id": name}, *(list(refs) + list(more)), nsmap=nsmap("xs", "link", "xlink", "xsi"))


def store(place, root):
    if remote(place):
        WEB[place] = content(root)
    else:
        write(ROOT[0] + "/" + place, content(root))


def loaded(ctx):
    return sorted([t.getroot().get("id") for t in ctx.get_xml_service().get_all_etrees()])


def reach(start, edges):
    seen, todo = [start], [start]
    while todo:
        x = todo.pop()
        for a, b in edges:
            if a == x and b not in seen:
                seen.append(b)
                todo.append(b)
    return seen


def discover(S, p):
    """All graphs of references between a few documents in several folders and on the web."""
    ROOT[0] = fresh()
    places = ["i.xml"] + [S.pick("place%d" % i, p["places"]) for i in range(p["docs"])]
    S.assume(len(set(places)) == len(places))
    edges, refs = [], {x: [] for x in places}
    for k in range(p["edges"]):
        a, b = S.pick("from%d" % k, list(range(len(places)))), S.pick("to%d" % k, list(range(len(places))))
        a, b = places[a], places[b]
        S.assume(not (remote(a) and not remote(b)))
        edges.append((a, b))
        kind = S.pick("kind%d" % k, p["kinds"])
        # only links have fragments
        forms = [f for f in p["forms"] if f != "fragment" or kind in ("schemaRef", "linkbaseRef", "locator")]
        refs[a].append(reference(kind, spell(S, str(k), a, b, forms)))
    for x in places:
        store(x, document(x, refs[x]))
    ctx = create_filing_context([ROOT[0] + "/i.xml"])
    want = reach("i.xml", edges)
    S.check(loaded(ctx) == sorted(want), "exactly the documents that references lead to are part of the filing, each once")
    S.check(sorted(FETCHED) == sorted([x for x in want if remote(x)]), "each document of the web is fetched once, and nothing else is")
    S.check(codes(ctx) == [], "no error")
    if any(remote(x) for x in want):
        S.cover("web")
    S.cover("reached" if len(want) > 1 else "alone")


def many(S, p):
    """Many references in one document, and many documents one after the other."""
    ROOT[0] = fresh()
    n = p["n"]
    names = ["d%d/x.xsd" % i for i in range(n)]
    how = S.pick("how", ["pairs", "hrefs", "chain", "nested", "back"])
    skip = S.pick("skip", p.get("skips") or list(range(n)))
    refs = {x: [] for x in names}
    top = []
    if how == "pairs":
        top = [el("xs:note", {"xsi:schemaLocation": " ".join("http://n%d\n %s" % (i, x) for i, x in enumerate(names) if i != skip)})]
    elif how == "hrefs":
        top = [reference(KINDS[i % len(KINDS)], x) for i, x in enumerate(names) if i != skip]
    elif how == "nested":
        # each reference stands one level deeper
        kid = []
        for i, x in enumerate(names):
            kid = [el("xs:note", None, *kid, *([reference(KINDS[i % len(KINDS)], x)] if i != skip else []))]
        top = kid
    else:
        top = [reference("import", names[0])]
        for i in range(n - 1):
            if i != skip:
                refs[names[i]].append(reference(KINDS[i % len(KINDS)], "../" + names[i + 1]))
            if how == "back":
                refs[names[i]].append(reference("import", "../i.xml"))
    for x in names:
        store(x, document(x, refs[x]))
    store("i.xml", document("i.xml", top))
    ctx = create_filing_context([ROOT[0] + "/i.xml"])
    want = names[: skip + 1] if how in ("chain", "back") else [x for i, x in enumerate(names) if i != skip]
    S.check(loaded(ctx) == sorted(["i.xml"] + want), "all the documents that references lead to are part of the filing")
    S.check(codes(ctx) == [], "no error")
    S.cover(how)


def ignored(S, p):
    """What merely looks like a reference is none."""
    ROOT[0] = fresh()
    a = S.str("a", "ab", 0, 2)
    what = S.pick("what", ["comment", "pi", "text", "namespace", "fragment", "empty", "namespaceattr"])
    x = {
        "comment": etree.Comment(' <link:schemaRef xlink:href="b.xsd"/> '),
        "pi": etree.ProcessingInstruction("x", 'schemaLocation="b.xsd"'),
        "text": el("xs:t", None, text='xlink:href="b.xsd" ' + a),
        "namespace": el("xs:import", {"namespace": "b.xsd"}),
        "fragment": el("link:loc", {"xlink:type": "locator", "xlink:href": "#e" + a}),
        "empty": el("xs:import", {"schemaLocation": " "}),
        "namespaceattr": el("xs:t", {"xsi:schemaLocation": "b.xsd c.xsd"}),
    }[what]
    store("b.xsd", document("b.xsd", []))
    store("c.xsd", document("c.xsd", []))
    store("i.xml", document("i.xml", [], x))
    ctx = create_filing_context([ROOT[0] + "/i.xml"])
    S.check(loaded(ctx) == sorted(["i.xml"] + (["c.xsd"] if what == "namespaceattr" else [])), "only references lead to documents")
    S.cover(what)


def entries(S, p):
    """Several entry documents, some of which refer to each other."""
    ROOT[0] = fresh()
    names = ["i.xml", "x/j.xml", "b.xsd"]
    edges, refs = [], {n: [] for n in names}
    for k in range(p["edges"]):
        a, b = S.pick("from%d" % k, names), S.pick("to%d" % k, names)
        edges.append((a, b))
        refs[a].append(reference("locator", spell(S, str(k), a, b, ["plain", "detour", "absolute"])))
    for n in names:
        store(n, document(n, refs[n]))
    start = S.pick("start", [["i.xml", "x/j.xml"], ["x/j.xml", "i.xml"], ["b.xsd", "i.xml"], ["i.xml", "x/j.xml", "b.xsd"]])
    dot = S.pick("dot", ["/", "/./", "/x/../"])
    ctx = create_filing_context([ROOT[0] + dot + s for s in start])
    want = []
    for s in start:
        for x in reach(s, edges):
            if x not in want:
                want.append(x)
    S.check(loaded(ctx) == sorted(want), "the documents that any entry leads to are part of the filing, each once")
    S.cover("reached")


def missing(S, p):
    """A document that the web does not have is reported, the others are part of the filing."""
    ROOT[0] = fresh()
    gone = S.pick("gone", PLACES[4:])
    source = S.pick("source", ["i.xml", "b.xsd", H + "/t/q.xsd"])
    first = S.pick("first", [0, 1])
    docs = {"i.xml": ["b.xsd", H + "/t/q.xsd"], "b.xsd": ["x/C.xsd"], H + "/t/q.xsd": [], "x/C.xsd": []}
    for d, rs in docs.items():
        if d == source:
            rs = [gone] + rs if first else rs + [gone]
        store(d, document(d, [reference("import", r) for r in rs]))
    ctx = create_filing_context([ROOT[0] + "/i.xml"])
    S.check(codes(ctx) == ["UNAVAILABLE_REMOTE_FILE"], "a document that is not available is reported")
    S.check(gone in ctx.get_error_repository().get_all()[0].get_message(), "by its URI")
    S.check(loaded(ctx) == sorted(docs), "the other documents are part of the filing")
    S.cover("reached")


def catalog_el(entries):
    root = etree.Element("{" + CAT + "}catalog", nsmap={None: CAT})
    for a, b in entries:
        x = etree.SubElement(root, "{" + CAT + "}rewriteURI")
        if a is not None:
            x.set("uriStartString", a)
        if b is not None:
            x.set("rewritePrefix", b)
    return root


def rewrite(S, p):
    """The catalog of a package: the longest start string that fits decides, and only the start is replaced."""
    ctx = new_context()
    rules, errors = [], []
    for i in range(p["k"]):
        a = "http://" + S.str("start%d" % i, p["alpha"], p["lo"], p["n"]) if S.pick("has%d" % i, [1, 0]) else None
        b = S.pick("to%d" % i, ["../x%d/" % i, None])
        rules.append((a, b))
    uri = S.pick("scheme", ["http://", "https://"]) + S.str("uri", p["alpha"], p["u"], p["u"])
    best = None
    for i, (a, b) in enumerate(rules):
        if a is None or b is None:
            errors.append("REWRITE_URI_MISSING_ATTRIBUTE")
            continue
        if any(a == c and d is not None for c, d in rules[:i]):
            errors.append("MULTIPLE_REWRITE_URIS_FOR_START_STRING")
            S.cover("ambiguous")
        if uri.startswith(a) and (best is None or len(a) >= len(best[0])):
            best = (a, b)
    parse_catalog_xml("p/META-INF/catalog.xml", catalog_el(rules).getroottree(), ctx)
    S.check(codes(ctx) == errors, "exactly the incomplete and ambiguous rules are reported")
    got = ctx.get_uri_rewrite_repository().rewrite(uri)
    if best is None:
        S.check_eq(got, uri, "a URI that no rule fits is left alone")
        S.cover("none")
    elif "MULTIPLE_REWRITE_URIS_FOR_START_STRING" not in errors:
        S.check_eq(got, "p/META-INF/" + best[1] + uri[len(best[0]) :], "the longest start string that fits is replaced, relative to the catalog")
        S.cover("rewritten")


class Files:
    """Stand-in for the file service: every document exists and is the same; records which are read."""

    def __init__(self, first, text):
        self.first, self.text, self.read = first, text, []

    def open(self, uri):
        self.read.append(uri)
        return BytesIO(self.first if len(self.read) == 1 else b"<a/>")

    def open_local_file(self, path):
        return self.open(path)

    def has_file(self, uri):
        return False

    def get_file(self, uri):
        return self.open(uri)

    def download_and_add_file(self, uri):
        return self.open(uri)


def resolved(base, ref):
    """The path a relative reference leads to, segment by segment."""
    out = [] if ref[:1] == "/" else base.split("/")[1:-1]
    for x in ref.split("/"):
        if x == "..":
            out = out[:-1]
        elif x != "." and x != "":
            out.append(x)
    return "/" + "/".join(out)


def resolve(S, p):
    """Every relative reference leads to the path its segments describe, in folders and on the web."""
    base = S.pick("base", p["bases"])
    ref = S.str("ref", p["alpha"], 1, p["n"]) + S.pick("ext", [".xsd", "/b.xml"])
    S.assume("//" not in ref)
    host = S.pick("host", ["", H, "https://h.example:80"])
    root = etree.Element("a")
    root.set("schemaLocation", ref)
    first = content(root)
    files = Files(first, ref)
    from brel.data.xml.xml_repository import XMLRepository
    from brel.data.uri_rewrite.in_memory_uri_rewrite_repository import InMemoryURIRewriteRepository
    from brel.services.xml.xml_file_parser_resolver import XMLFileParserResolver
    from brel.services.xml.xml_service import XMLService

    service = XMLService(files, XMLRepository(), InMemoryURIRewriteRepository(), XMLFileParserResolver(etree.parse, etree.parse))
    service.add_etree_recursive(host + base)
    want = resolved(base, ref)
    S.check_eq(files.read[0], host + base, "the entry document is read")
    if want == base:
        S.check(len(files.read) == 1, "a document that refers to itself is read once")
        S.cover("itself")
        return
    S.check(len(files.read) == 2, "the referenced document is read once")
    S.check_eq(files.read[1], host + want, "a relative reference leads to the path its segments describe")
    back = service.get_referenced_etree(ref, service.get_etree(host + base))
    S.check(back is service.get_etree(host + want), "the referenced document is found by the reference")
    S.cover("web" if host else "local")


def package(S, p):
    """Documents that a catalog maps into the package are read from there and nowhere else."""
    ROOT[0] = fresh()
    rules = S.pick("rules", [[(H + "/t/", "../x/")], [(H + "/t/u/", "../x/y/")], [(H + "/t/", "../z/"), (H + "/t/u/", "../x/y/")], [(H, "../x")]])
    place = {}
    for u in (H + "/t/r.xsd", H + "/t/U/s.xsd"):
        best = max([r for r in rules if u.startswith(r[0])], key=lambda r: len(r[0]), default=None)
        place[u] = u if best is None else posixpath.normpath("META-INF/" + best[1] + u[len(best[0]) :])
        store(place[u], document(u, [reference("import", H + "/t/U/s.xsd")] if u.endswith("r.xsd") and S.pick("onward", [0, 1]) else []))
    direct = S.pick("direct", [0, 1])
    refs = [H + "/t/r.xsd"]
    if S.pick("both", [0, 1]):
        refs.append(H + "/t/U/s.xsd")
    if direct:
        refs = refs + [place[u] for u in list(refs)] if S.pick("last", [0, 1]) else [place[u] for u in list(refs)] + refs
    store("i.xml", document("i.xml", [reference("schemaRef", r) for r in refs]))
    write(ROOT[0] + "/META-INF/catalog.xml", content(catalog_el(rules)))
    files = ["/META-INF/catalog.xml", "/i.xml"]
    if p["inner"]:
        # a package within the package has a catalog too
        inner = catalog_el([(H + "/t/", "../no/"), (H + "/t/U/", "../no/")])
        inner.set("id", "in/catalog")
        write(ROOT[0] + "/in/META-INF/catalog.xml", content(inner))
        files.insert(1, "/in/META-INF/catalog.xml")
        S.cover("inner")
    given = [ROOT[0] + f for f in (files if S.pick("order", [0, 1]) else files[::-1])]
    ctx = create_filing_context(given)
    got = [u for u in loaded(ctx) if not u.startswith("in/")]
    S.check(len(set(got)) == len(got), "each document is part of the filing once")
    S.check(set(r for r in refs if remote(r)) <= set(got) and "i.xml" in got and len(got) <= 3, "the documents that references lead to are part of the filing")
    S.check(set(FETCHED) == set(u for u in got if remote(u) and place[u] == u), "what the package has is not fetched")
    S.cover("package")


FORMS = ["plain", "dot", "detour", "absolute", "fragment"]
HARNESSES = [
    Harness(
        discover,
        quick=[
            dict(docs=1, places=PLACES[1:], edges=1, kinds=KINDS, forms=FORMS + ["root"]),
            dict(docs=2, places=PLACES[1:], edges=2, kinds=["import"], forms=["plain", "detour"], _split={"place0": 5}),
            dict(docs=2, places=["x/C.xsd", PLACES[5]], edges=3, kinds=["locator"], forms=["plain"]),
        ],
        thorough=[
            dict(docs=2, places=PLACES[1:], edges=2, kinds=["import", "locator"], forms=FORMS + ["root"], _split={"place0": 5, "place1": 5}),
            dict(docs=3, places=["b.xsd", "x/y/e.xsd", PLACES[4]], edges=3, kinds=["import"], forms=["plain"], _split={"from0": 4, "to0": 4}),
        ],
        covers=["reached", "web", "alone"],
        bounds="2-3 (thorough 4) documents in four folders and on the web, 1-3 references of six kinds in six spellings",
    ),
    Harness(many, quick=[dict(n=7), dict(n=18, skips=[0, 11, 17])], thorough=[dict(n=25)], covers=["pairs", "hrefs", "chain", "nested", "back"], bounds="7-25 documents, all but one referred to in one attribute, by elements side by side or inside each other, or each by the one before"),
    Harness(ignored, quick=[{}], covers=["comment", "pi", "text", "namespace", "fragment", "empty", "namespaceattr"], bounds="seven things that look like references"),
    Harness(entries, quick=[dict(edges=1)], thorough=[dict(edges=2, _split={"from0": 3, "to0": 3})], covers=["reached"], bounds="2-3 entry documents, 1 (2) references, three spellings of the entry"),
    Harness(missing, quick=[{}], covers=["reached"], bounds="one missing document, three places that refer to it"),
    Harness(rewrite, quick=[dict(k=2, alpha="a/", lo=0, n=2, u=3)], thorough=[dict(k=3, alpha="a/", lo=0, n=2, u=3, _split={"has0": 2, "has1": 2, "to0": 2, "to1": 2}), dict(k=2, alpha="ab/.", lo=0, n=3, u=4)], covers=["none", "rewritten", "ambiguous"], bounds="2 (3) rules with start strings of up to 2 (3) free characters, all URIs of 3 (4)"),
    Harness(
        resolve,
        quick=[dict(bases=["/d/x/i.xml", "/i.xml"], alpha="./a", n=5)],
        thorough=[dict(bases=["/d/x/i.xml", "/i.xml", "/a/.xsd"], alpha="./a-", n=6)],
        covers=["local", "web"],
        bounds="all references of up to 5 (6) characters from a slash, a dot and letters without empty segments, 2 (3) documents that refer, local and on the web",
    ),
    Harness(package, quick=[dict(inner=0), dict(inner=1)], covers=["package", "inner"], bounds="four catalogs, alone or with one of an inner package, two documents, references by URI and by path"),
]
ASSUMPTIONS = ["documents on the web refer to documents on the web", "requests.Session is replaced by a stand-in that serves given documents and records the requests"]
