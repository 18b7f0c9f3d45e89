"""P17: the cache of documents of the web."""
from io import BytesIO

from harness.crash import Watch
from harness.files import *
from sx.api import Harness
import brel.data.file.pyfs_file_repository as pyfs_file_repository
from brel.contexts.factory import create_filing_context
from brel.data.file.pyfs_file_repository import PyFsFileRepository
from brel.services.file.file_service import FileService
from brel.data.errors.in_memory_error_repository import InMemoryErrorRepository

PROPERTY = "P17"

H = "http://h.example"


class Folder:
    """Stand-in for a folder: files by name; names a file system would not take are refused."""

    def __init__(self):
        self.names, self.data = [], []

    def find(self, name):
        if name in ("", ".", "..") or "/" in name or "\\" in name or "\0" in name:
            raise ValueError("bad file name")
        for i, n in enumerate(self.names):
            if n == name:
                return i
        return None

    def exists(self, name):
        return self.find(name) is not None

    def writebytes(self, name, data):
        i = self.find(name)
        if i is None:
            self.names.append(name)
            self.data.append(data)
        else:
            self.data[i] = data

    def open(self, name, mode):
        i = self.find(name)
        if i is None:
            raise FileNotFoundError("no such file")
        return BytesIO(self.data[i])

    def readbytes(self, name):
        return self.open(name, "rb").read()

    def isfile(self, name):
        return self.exists(name)

    def listdir(self, path):
        return list(self.names)

    def remove(self, name):
        i = self.find(name)
        if i is None:
            raise FileNotFoundError("no such file")
        del self.names[i], self.data[i]

    def copy(self, name, to, overwrite=False, **k):
        if not overwrite and self.exists(to):
            raise FileExistsError("file exists")
        self.writebytes(to, self.readbytes(name))

    def move(self, name, to, overwrite=False, **k):
        self.copy(name, to, overwrite)
        if name != to:
            self.remove(name)

    def removetree(self, path):
        self.names, self.data = [], []


FOLDER = [None]


class fs_stand_in:
    @staticmethod
    def open_fs(location, create=False):
        return FOLDER[0]


REAL_FS = pyfs_file_repository.fs


def repository(S):
    FOLDER[0] = Folder()
    pyfs_file_repository.fs = fs_stand_in
    try:
        return PyFsFileRepository("cache", clear_cache=False)
    finally:
        pyfs_file_repository.fs = REAL_FS


def names(S, p):
    """The entries of documents with different URIs are different, whatever characters the URIs have."""
    repo = repository(S)
    us = []
    for i in range(p["k"]):
        scheme = S.pick("scheme%d" % i, ["http://", "https://"]) if p["schemes"] else "http://"
        us.append(scheme + S.str("uri%d" % i, p["alpha"], p["lo"], p["n"]))
    held = {}
    for i, u in enumerate(us):
        S.check(repo.has_file(u) is (u in held), "a document is in the cache if it was put there")
        repo.add_file(u, BytesIO(b"doc%d" % i))
        held[u] = b"doc%d" % i
        for v in us[: i + 1]:
            S.check(repo.has_file(v), "a document that was put into the cache is there")
            with repo.get_file(v) as f:
                S.check_eq(f.read(), held[v], "the cache gives the document that was last put there for this URI")
    S.cover("same" if len(held) < len(us) else "different")


LIKE = ["/a.xsd", "/a/.xsd", "/a.xsd/", "/A.xsd", "/a%2Exsd", "/a.xsd?b=c", "/a.xsd?b=c&d=e", "/a.xsd?b%3Dc", "/a/b/c/d/e/f/g.xsd", "/a/b/c/d/e/f_g.xsd", "/a_b_c_d_e_f_g.xsd", ":80/a.xsd", "//a.xsd", "/a+b.xsd", "/a%20b.xsd", "/a-2020.xsd", "/a-2021.xsd"]


def many(S, p):
    """Eighteen documents whose URIs look alike, one URI free: each stays what it is, also when one is put again."""
    repo = repository(S)
    us = [H + x for x in LIKE]
    us.insert(S.pick("at", p["at"]), H + "/a" + S.str("uri", p["alpha"], 1, p["n"]) + "xsd")
    held = {}
    for i, u in enumerate(us):
        S.check(repo.has_file(u) is (u in held), "a document is in the cache if it was put there")
        repo.add_file(u, BytesIO(b"doc%d" % i * 20))
        held[u] = b"doc%d" % i * 20
    again = S.pick("again", p["again"])
    repo.add_file(us[again], BytesIO(b"new"))
    held[us[again]] = b"new"
    for u, d in held.items():
        with repo.get_file(u) as f:
            S.check_eq(f.read(), d, "the cache gives the document that was last put there for this URI")
    S.cover("same" if len(held) < len(us) else "different")


class Web:
    """Stand-in for requests.Session with a history: the n-th request is answered by the n-th version."""

    def __init__(self, versions):
        self.versions, self.asked = versions, []

    def get(self, uri, **k):
        self.asked.append(uri)
        v = self.versions[uri]
        return Response(v.pop(0) if v else None)


def history(S, p):
    """Histories of filings that ask for documents: each is fetched until it is there, and stays as it came."""
    us = [H + "/a.xsd", H + "/b.xsd"]
    versions = {u: [b"\xef\xbb\xbf %d of %s\r\n\0 " % (i, u.encode()) if S.pick("there %d %s" % (i, u), [1, 0]) else None for i in range(p["versions"])] for u in us}
    web = Web({u: list(v) for u, v in versions.items()})
    repo = repository(S)
    left = {u: list(v) for u, v in versions.items()}
    held, asked = {}, []
    for i in range(p["steps"]):
        errors = InMemoryErrorRepository()
        service = FileService(repo, errors, web)
        u = S.pick("step%d" % i, us)
        S.check(service.has_file(u) is (u in held), "a document is in the cache if it was fetched")
        if service.has_file(u):
            f = service.get_file(u)
            S.cover("cached")
        else:
            f = service.download_and_add_file(u)
            asked.append(u)
            d = left[u].pop(0) if left[u] else None
            if d is not None:
                held[u] = d
        S.check_eq(web.asked, asked, "exactly the documents are fetched that the cache does not have")
        if u in held:
            S.check(f is not None and errors.get_all() == [], "no error")
            S.check_eq(f.read(), held[u], "the document is the one that was fetched first")
        else:
            S.check(f is None and codes(errors) == ["UNAVAILABLE_REMOTE_FILE"], "a document that is not available is reported, and not put into the cache")
            S.cover("unavailable")


def doc(root_id, *refs):
    x = el("xs:schema", {"id": root_id}, nsmap=nsmap("xs"))
    for r in refs:
        x.append(el("xs:import", {"schemaLocation": r}))
    return x


def opened(S, p):
    """Filings that are opened one after another, while documents change."""
    root = fresh()
    text = {}

    def version(place, tag):
        text[place] = S.str(tag, p["alpha"], 1, p["n"])
        return text[place]

    def put(tag):
        version("r", tag + "r"), version("s", tag + "s")
        WEB[H + "/r.xsd"] = content(doc("r" + text["r"], "s.xsd"))
        WEB[H + "/s.xsd"] = content(doc("s" + text["s"]))
        for d in ("a", "b"):
            version(d, tag + d)
            write(root + "/" + d + "/i.xml", content(doc(d + text[d], H + "/r.xsd", "j.xsd")))
            write(root + "/" + d + "/j.xsd", content(doc("j" + d + text[d])))

    fetched = {}
    put("0")
    for i in range(p["steps"]):
        if i and S.pick("change%d" % i, [1, 0]):
            put(str(i))
        d = S.pick("open%d" % i, ["a", "b"])
        ctx = create_filing_context([root + "/" + d + "/i.xml"])
        for x in "rs":
            fetched.setdefault(x, text[x])
        got = [t.getroot().get("id") for t in ctx.get_xml_service().get_all_etrees()]
        S.check(codes(ctx) == [], "no error")
        S.check_eq([x for x in got if x[0] in "ab"], [d + text[d]], "a document of the folder is read as it is now")
        S.check_eq([x for x in got if x[0] == "j"], ["j" + d + text[d]], "a document of the folder is read as it is now, not one of the same name in another folder")
        S.check_eq(sorted([x for x in got if x[0] in "rs"]), ["r" + fetched["r"], "s" + fetched["s"]], "a document of the web is the one that was fetched first")
        S.check(sorted(FETCHED) == [H + "/r.xsd", H + "/s.xsd"], "each document of the web is fetched once")
    S.cover("opened")


def anybytes(S, p):
    """A document comes out of the cache byte for byte, on the real file system."""
    root = fresh()
    data = S.pick("bytes", [b"", b"\r\n\r", bytes(range(256)), b"\xef\xbb\xbf<a/>", "é€😀".encode("utf-16"), b"x" * 70000, b" \n<a/>\r\n\t", b"\0"])
    repo = PyFsFileRepository(root + "/cache", clear_cache=False)
    u = H + S.pick("path", ["/a.xsd", "/a/b.xsd?c=d&e", "/%2Fa", "/a b", "/\u00e9", "", "/..", "/a:b*c|d\\e"])
    S.check(not repo.has_file(u), "the cache is empty")
    if S.pick("fetched", [1, 0]):
        errors = InMemoryErrorRepository()
        f = FileService(repo, errors, Web({u: [data]})).download_and_add_file(u)
        S.check(f is not None and errors.get_all() == [], "a document that is available is no problem, even if it is empty")
        with f:
            S.check_eq(f.read(), data, "a document that is fetched is given as it came")
    else:
        repo.add_file(u, BytesIO(data))
    S.check(repo.has_file(u), "the cache has the document")
    with PyFsFileRepository(root + "/cache", clear_cache=False).get_file(u) as f:
        S.check_eq(f.read(), data, "the cache gives the bytes that were put there, also to a later filing")
    S.check(len(os.listdir(root + "/cache")) == 1, "one file in the folder of the cache")
    PyFsFileRepository(root + "/cache", clear_cache=True)
    S.check(os.listdir(root + "/cache") == [], "clearing the cache removes the documents")
    S.cover("kept")


def stopped(S, p):
    """The program stops while a document is put into the cache: later filings read whole documents."""
    root = fresh()
    folder = root + "/cache"
    us = [H + "/a.xsd", H + "/b.xsd"]
    data = [[b"<%s%d>" % (u[-5:-4].encode(), i) + b"x" * 20 + b"</>" for i in range(3)] for u in us]
    repo = PyFsFileRepository(folder, clear_cache=False)
    held = {}
    for j in (0, 1):
        if S.pick("before%d" % j, [0, 1]):
            FileService(repo, InMemoryErrorRepository(), Web({us[j]: [data[j][0]]})).download_and_add_file(us[j])
            held[j] = 0
    k = S.pick("document", [0, 1])
    watch = Watch(folder, [pyfs_file_repository])
    watch.start()
    try:
        FileService(repo, InMemoryErrorRepository(), Web({us[k]: [data[k][1]]})).download_and_add_file(us[k])
    finally:
        watch.stop()
    n = S.int("stopped after", 0, p["points"] - 1)
    S.assume(n < len(watch.states))
    n = S.concrete(n)
    watch.leave(n)
    if n == 0 or n == len(watch.states) - 1:
        S.cover("nothing or all")
    else:
        S.cover("in between")
    repo = PyFsFileRepository(folder, clear_cache=False)
    for j in (0, 1):
        web = Web({us[j]: [data[j][2]]})
        service = FileService(repo, InMemoryErrorRepository(), web)
        S.check(j not in held or j == k or service.has_file(us[j]), "the other documents of the cache stay")
        f = service.get_file(us[j]) if service.has_file(us[j]) else service.download_and_add_file(us[j])
        with f:
            got = f.read()
        good = [data[j][2]] if web.asked else ([data[j][held[j]]] if j in held else []) + ([data[j][1]] if j == k else [])
        S.check(any(got == g for g in good), "after the program was stopped, a document is whole, or fetched again")
    if S.pick("clear", [0, 1]):
        PyFsFileRepository(folder, clear_cache=True)
        S.check(os.listdir(folder) == [], "clearing the cache removes the documents")


HARNESSES = [
    Harness(names, quick=[dict(k=2, alpha="/:%.a?", lo=0, n=2, schemes=1, _split={"scheme0": 2, "scheme1": 2}), dict(k=2, alpha="/%2F", lo=3, n=3, schemes=0)], thorough=[dict(k=2, alpha="/:%.~a2F?&#\u00e9 \\A", lo=0, n=2, schemes=1), dict(k=2, alpha="/:%a2F_", lo=0, n=3, schemes=0), dict(k=3, alpha="/%2Fa", lo=0, n=2, schemes=0)], covers=["same", "different"], bounds="2 (3) URIs with 0-3 free characters from separators, escapes and letters"),
    Harness(many, quick=[dict(at=[0, 17], again=[0, 9, 17], alpha="/.%2E", n=3)], thorough=[dict(at=[0, 9, 17], again=[0, 9, 17], alpha="/.%2E_b?+-:", n=4, _split={"at": 3, "again": 3})], covers=["same", "different"], bounds="17 URIs that look alike and one with up to 3 (4) free characters"),
    Harness(history, quick=[dict(versions=1, steps=4)], thorough=[dict(versions=2, steps=6)], covers=["cached", "unavailable"], bounds="all histories of 4 (6) requests for two documents, of which 1 (2) versions may be unavailable"),
    Harness(opened, quick=[dict(steps=2, alpha="ab", n=1)], thorough=[dict(steps=3, alpha="ab", n=1)], covers=["opened"], bounds="2 (3) filings in two folders with documents of equal names, which refer to two documents on the web; all documents may change in between"),
    Harness(stopped, quick=[dict(points=50)], covers=["nothing or all", "in between"], bounds="the program stops before, in the middle of or after any write to the folder of the cache, while one of two documents is put there; each may be there before"),
    Harness(anybytes, quick=[{}], covers=["kept"], bounds="eight documents, eight URIs, fetched or put"),
]
ASSUMPTIONS = ["requests.Session is replaced by a stand-in that serves given documents and records the requests", "names and history: the folder of the cache is replaced by a stand-in that refuses what is no file name", "URIs of up to 80 characters (a file name has 255 bytes)"]
