"""P18: a filing is the same wherever it is opened from."""
import tempfile
import zipfile

from harness.files import *
from harness.p16 import catalog_el
from sx.api import Harness
import brel.parsers.path_loaders.file_path_loader as file_path_loader
import brel.parsers.path_loaders.folder_path_loader as folder_path_loader
from brel.parsers.path_loaders.factory import create_path_loader_resolver

PROPERTY = "P18"

H = "http://h.example/t/"
TAXONOMY = [("amount", "Amount", {}), ("note", "Note", {"type": "xbrli:stringItemType"})]


def reference(uri):
    return el("link:schemaRef", {"xlink:type": "simple", "xlink:href": uri})


def xml(uri, n, text, ident):
    return instance(
        reference(uri),
        context_el("c", ident=ident),
        unit_el("u"),
        el("ex:Amount", {"id": "a" + n, "contextRef": "c", "unitRef": "u", "decimals": "0"}, text=text),
        el("ex:Note", {"id": "n" + n, "contextRef": "c"}, text="x" + text),
    )


def html(uri, n, text, ident):
    root = inline(
        [
            el("ix:nonFraction", {"id": "a" + n, "name": "ex:Amount", "contextRef": "c" + n, "unitRef": "u" + n, "decimals": "0"}, text=text),
            el("ix:nonNumeric", {"id": "n" + n, "name": "ex:Note", "contextRef": "c" + n}, text="x" + text),
        ],
        [context_el("c" + n, ident=ident), unit_el("u" + n)],
    )
    for x in root.iter(q("link:schemaRef")):
        x.set(q("xlink:href"), uri)
    return root


def described(filing):
    return [
        (f.get_id(), f.get_concept().get_name().clark_notation(), f.get_value_as_str(), f.get_entity().get_value(), f.get_unit().get_name() if f.get_unit() is not None else None)
        for f in sorted(filing.get_all_facts(), key=lambda f: f.get_id())
    ]


def files_of(S, p):
    """Files of a filing by path: one or two instances, the taxonomy and things that do not belong to it."""
    form = S.pick("form", p["forms"])
    k = S.pick("documents", p["documents"])
    tax = S.pick("taxonomy", p["taxonomy"])
    deep = S.pick("deep", p["deep"])
    files, want = {}, []
    uri = {"local": ("../" if deep else "") + "ex.xsd", "web": H + "ex.xsd", "catalog": H + "ex.xsd"}[tax]
    place = {"local": "ex.xsd", "web": None, "catalog": "t/ex.xsd"}[tax]
    ex = content(schema(NS["ex"], *TAXONOMY))
    if place is None:
        WEB[H + "ex.xsd"] = ex
    else:
        files[place] = ex
    if tax == "catalog":
        files["META-INF/catalog.xml"] = content(catalog_el([(H, "../t/")]))
    for i in range(k):
        free = not p.get("fixed") or i == k - 1
        text = S.str("text%d" % i, "0123456789", 1, p["n"]) if free else str(i)
        S.assume(text[0] != "0" or len(text) == 1)
        ident = S.str("id%d" % i, "ab1", 1) if free else "e%d" % i
        n = str(i)
        files[deep + "i" + n + form] = content((xml if form == ".xml" else html)(uri, n, text, ident))
        want.append(("a" + n, q("ex:Amount"), text, "{http://s}" + ident, "u" if form == ".xml" else "u" + n))
        want.append(("n" + n, q("ex:Note"), "x" + text, "{http://s}" + ident, None))
    return files, sorted(want)


def zipped(path, files, top):
    with zipfile.ZipFile(path, "w") as z:
        for name, data in files.items():
            z.writestr(top + name, data)


def opened(S, p):
    """The same filing in a file, a folder, a zip file and on the web."""
    root = fresh()
    tempfile.tempdir = root
    files, want = files_of(S, p)
    extra = {"readme.txt": b"no <xml>", "img/logo.png": b"\x89PNG", "notes.xml.bak": b"<", "xhtml": b"<"} if S.pick("extra", p["extra"]) else {}
    entry = [n for n in files if "i0" in n][0]
    how = S.pick("how", p["how"])
    home = os.getcwd()
    if how in ("file", "url", "relative file"):
        # a file alone has no catalog
        S.assume(len(want) == 2 and "META-INF/catalog.xml" not in files)
    if how == "url":
        for n, d in files.items():
            WEB[H + n] = d
        path = H + entry
    elif how == "file":
        for n, d in files.items():
            write(root + "/d e/" + n, d)
        path = root + "/d e/" + entry
    elif how in ("relative", "relative file"):
        # names that begin like those of the web
        for n, d in files.items():
            write(root + "/https/" + n, d)
        path = "https" + ("" if how == "relative" else "/" + entry)
        os.chdir(root)
    elif how in ("folder", "slash", "inner"):
        for n, d in list(files.items()) + list(extra.items()):
            write(root + "/f/" + ("p/" if how == "inner" else "") + n, d)
        path = root + "/f" + ("/" if how == "slash" else "")
    else:
        zipped(root + "/x.zip", dict(files, **extra), "p/" if how == "zip top" else "")
        path = root + "/x.zip"
    try:
        f = Filing.open(path)
    finally:
        os.chdir(home)
    S.check([e for e in f.get_all_errors()] == [], "no error")
    S.check_eq(described(f), want, "the facts are those of the instances, wherever the filing is")
    S.check(len(f.get_all_concepts()) == 2, "the taxonomy is read once")
    S.check([u for u in FETCHED if u not in WEB] == [] and (how == "url" or "META-INF/catalog.xml" not in files or FETCHED == []), "nothing else is fetched")
    S.cover(how)
    S.cover("inline" if not [n for n in files if n.endswith("i0.xml")] else "xml")


class Tree:
    """Stand-in for os: a folder tree with given names."""

    def __init__(self, tree):
        self.tree = tree
        self.path = self

    def find(self, path):
        node = self.tree
        for part in path.split("/")[1:]:
            if part == "" or part == ".":
                continue
            if not isinstance(node, list):
                return None
            node = next((n for name, n in node if name == part), None)
            if node is None:
                return None
        return node

    def listdir(self, path):
        return [name for name, n in self.find(path)]

    def isdir(self, path):
        return isinstance(self.find(path), list)

    def isfile(self, path):
        return self.find(path) == "file"


SUFFIXES = [".xml", ".xhtml", ".htm", ".html", ".xsd"]
ENDS = SUFFIXES + ["xml", "html", ".XML", ".txt", ".xml~", ".xml.gz", ".json", ""]


def supported(name, suffixes):
    return any(name[-len(s) :] == s and len(name) >= len(s) for s in suffixes)


def folder(S, p):
    """Exactly the files of a folder and its subfolders are loaded that can be part of a filing."""
    root, sub = [], []
    want = []
    for i in range(p["k"]):
        name = S.str("name%d" % i, p["alpha"], 1, p["n"]) + S.pick("end%d" % i, ENDS)
        S.assume(name not in (".", ".."))
        into, prefix = (sub, "s/") if S.pick("sub%d" % i, [0, 1]) else (root, "")
        S.assume(name not in [n for n, k in into] and not (into is root and name == "s"))
        into.append((name, "file"))
        if supported(name, SUFFIXES):
            want.append(prefix + name)
    if sub or S.pick("empty folder", [0, 1]):
        root.insert(S.pick("at", [0, len(root)]), ("s", sub))
    kind = S.pick("dir name", ["", ".xml"])
    path = "/r" + kind
    tree = Tree([("r" + kind, root)])
    old = folder_path_loader.os, file_path_loader.os
    folder_path_loader.os = file_path_loader.os = tree
    try:
        loader = create_path_loader_resolver().get_path_loader(path)
        got = loader.load(path)
        again = loader.load(path)
    finally:
        folder_path_loader.os, file_path_loader.os = old
    S.check_eq(sorted([g[len(path) + 1 :] for g in got]), sorted(want), "exactly the supported files below the folder are loaded, each once")
    S.check(all([g[: len(path) + 1] == path + "/" for g in got]), "by their paths")
    S.check_eq(again, got, "in the same order every time")
    S.cover("some" if want else "none")


def ordered(S, p):
    """The order in which the file system lists files does not matter."""
    names = [S.str("name%d" % i, "ab1", 1, 2) + ".xml" for i in range(p["k"])]
    S.assume(len(set(names)) == p["k"])
    results = []
    for perm in (names, names[::-1], names[1:] + names[:1]):
        tree = Tree([("r", [(n, "file") for n in perm])])
        old = folder_path_loader.os
        folder_path_loader.os = tree
        try:
            results.append(folder_path_loader.FolderPathLoader().load("/r"))
        finally:
            folder_path_loader.os = old
    S.check_eq(results[0], results[1], "files are loaded in the same order on every system")
    S.check_eq(results[0], results[2], "files are loaded in the same order on every system")
    S.cover("ordered")


def paths(S, p):
    """What can be opened, and that everything else is refused."""
    root = fresh()
    end = S.pick("end", ENDS + [".zip"])
    what = S.pick("what", ["file", "web", "folder", "nothing", "ftp"])
    stem = S.str("stem", "a-", 1)
    path = {"web": "https://h.example/", "ftp": "ftp://h.example/"}.get(what, root + "/") + stem + end
    if what == "file":
        write(path, b"<a/>")
    elif what == "folder":
        os.makedirs(path)
    fits = end in (".xml", ".xhtml", ".htm", ".html")
    want = None
    if what == "folder":
        want = "FolderPathLoader"
    elif end == ".zip":
        want = "ZipPathLoader"
    elif what in ("file", "web") and fits:
        want = "FilePathLoader"
    resolver = create_path_loader_resolver()
    if want is None:
        S.check(raises(Filing.open, path) == "ValueError", "what cannot be opened is refused")
        S.cover("refused")
        return
    loader = resolver.get_path_loader(path)
    S.check(type(loader).__name__ == want, "files, folders, zip files and links are told apart")
    if want == "FilePathLoader":
        S.check_eq(loader.load(path), [path], "a file stands for itself")
        S.cover("file")


def contained(S, p):
    """Extracting a zip file writes nothing outside of its folder."""
    root = fresh()
    os.makedirs(root + "/t")
    tempfile.tempdir = root + "/t"
    evil = S.pick("evil", ["../evil.xml", "../../evil.xml", root + "/evil.xml", "a/../../../evil.xml", "./x/../evil.xml"])
    zipped(root + "/x.zip", {"a.xml": b"<a/>", evil: b"<a/>", "b/c.xsd": b"<a/>"}, "")
    got = create_path_loader_resolver().get_path_loader(root + "/x.zip").load(root + "/x.zip")
    dirs = os.listdir(root + "/t")
    S.check(len(dirs) == 1 and sorted(os.listdir(root)) == ["t", "x.zip"], "only one folder is written")
    base = root + "/t/" + dirs[0] + "/"
    S.check(all([g.startswith(base) and os.path.isfile(g) for g in got]), "all files are in the folder of the zip file")
    S.check(base + "a.xml" in got and base + "b/c.xsd" in got, "the files of the zip file are loaded")
    S.cover("contained")


FORMS = [".xml", ".xhtml", ".htm", ".html"]
HOW = ["relative", "relative file", "file", "folder", "slash", "inner", "zip", "zip top", "url"]
COVERS = HOW + ["xml", "inline"]
HARNESSES = [
    Harness(opened, quick=[dict(forms=FORMS, documents=[1, 2], taxonomy=["local", "catalog"], deep=["", "r/"], extra=[1], how=HOW, n=1), dict(forms=[".xml", ".htm"], documents=[1], taxonomy=["local", "web"], deep=["r/"], extra=[0], how=HOW, n=2), dict(forms=[".xml", ".htm"], documents=[7], taxonomy=["local"], deep=["r/"], extra=[1], how=["folder", "zip top"], n=1, fixed=1)], thorough=[dict(forms=FORMS, documents=[1, 2], taxonomy=["local", "catalog", "web"], deep=["", "r/"], extra=[0, 1], how=HOW, n=2)], covers=COVERS, bounds="1-2 (or 7) instances of four kinds with free text and entities, local taxonomy, on the web or by catalog, in seven places"),
    Harness(folder, quick=[dict(k=2, alpha="a.", n=1)], thorough=[dict(k=3, alpha="a.", n=1, _split={"end0": len(ENDS)}), dict(k=2, alpha="a.xml", n=3, _split={"end0": len(ENDS)})], covers=["some", "none"], bounds="2 (3) files with names of 1 (3) free characters and thirteen endings in two folders"),
    Harness(ordered, quick=[dict(k=3)], thorough=[dict(k=4)], covers=["ordered"], bounds="3 (4) files with free names, three orders"),
    Harness(paths, quick=[{}], covers=["refused", "file"], bounds="fourteen endings of files, folders, links and missing paths"),
    Harness(contained, quick=[{}], covers=["contained"], bounds="five hostile names"),
]
ASSUMPTIONS = ["requests.Session is replaced by a stand-in that serves given documents and records the requests", "folder and ordered: the file system is replaced by a stand-in with free names"]
