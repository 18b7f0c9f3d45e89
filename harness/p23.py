"""P23: opening filings of the EDGAR database."""
import datetime
import json
import os
import shutil
import time
import types

import requests

from harness.crash import Watch
from harness.lib import *
from sx.api import Harness
import brel.brel_filing
import brel.utils.edgar as edgar

PROPERTY = "P23"
REAL = dict(stat=os.stat, request=requests.Session.request, filing=brel.brel_filing.Filing.__dict__["open"])
REAL_MODULE = {k: edgar.__dict__[k] for k in ("datetime", "time") if k in edgar.__dict__}
ROOT = os.environ["HOME"]
NAME = ".brel_edgar_cache"
GLOBALS = [k for k, v in edgar.__dict__.items() if isinstance(v, (str, os.PathLike)) and os.fspath(v) == os.path.join(ROOT, NAME)]
MARK = 1000  # the modification time of files that were there before a step
DATA = "https://data.sec.gov/submissions/CIK%s.json"
ARCHIVE = "https://www.sec.gov/Archives/edgar/data/%s/%s/%s"
DAY = 86400


class Answer:
    """Stand-in for requests.Response."""

    def __init__(self, status, value):
        self.status_code = status
        self.ok = status < 400
        self.value = value
        self.text = json.dumps(value)
        self.content = self.text.encode("utf-8")
        self.headers = {}

    def json(self):
        if self.status_code != 200:
            raise requests.exceptions.JSONDecodeError("no JSON", "", 0)
        return json.loads(self.text)

    def raise_for_status(self):
        if not self.ok:
            raise requests.HTTPError("%s Error" % self.status_code)


class Stat:
    """os.stat_result with another modification time."""

    def __init__(self, real, t):
        self.real, self.st_mtime = real, t

    def __getattr__(self, n):
        return getattr(self.real, n)


class World:
    """The web, the clock, the files of the cache and the filings that are opened."""

    def __init__(self, web):
        self.web, self.now = web, 0
        self.asked, self.opened = [], []
        self.times = {}
        self.home = os.path.join(ROOT, "e%d" % os.getpid())
        self.dir = os.path.join(self.home, NAME)
        shutil.rmtree(self.home, ignore_errors=True)
        os.makedirs(self.dir)
        os.environ["HOME"] = self.home
        for k in GLOBALS:
            edgar.__dict__[k] = type(edgar.__dict__[k])(self.dir)

    def request(self, method, url, **k):
        self.asked.append(url)
        for u, v in self.web:
            if u == url:
                return Answer(200, v) if v is not None else Answer(404, None)
        return Answer(404, None)

    def stat(self, path, *a, **k):
        r = REAL["stat"](path, *a, **k)
        try:
            name = os.path.basename(os.fspath(path))
            inside = os.path.dirname(os.path.abspath(os.fspath(path))) == self.dir
        except TypeError:
            return r
        if not inside:
            return r
        t = self.times.get(name, self.now) if r.st_mtime == MARK else self.now
        return Stat(r, t)

    def restore(self, n):
        """What is left on the disk if the program stops after n steps of the call that was watched."""
        before, s = self.watch.states[0], self.watch.states[n]
        self.watch.leave(n)
        self.times = {x: self.times_before[x] if x in before and before[x] == data else self.now for x, data in s.items()}
        for x in s:
            os.utime(os.path.join(self.dir, x), (MARK, MARK))

    def mark(self):
        for n in os.listdir(self.dir):
            p = os.path.join(self.dir, n)
            if REAL["stat"](p).st_mtime != MARK:
                self.times[n] = self.now
                os.utime(p, (MARK, MARK))

    def open_edgar(self, *a, watch=False):
        """What open_edgar does: the URI it opens, or None if it raises ValueError."""
        n = len(self.opened)

        def opened(path, *a, **k):
            self.opened.append(path)
            return path

        requests.Session.request = lambda s, method, url, **k: self.request(method, url, **k)
        brel.brel_filing.Filing.open = opened
        os.stat = self.stat
        clock = Clock(self)
        for k, v in REAL_MODULE.items():
            edgar.__dict__[k] = clock.module(v)
        if watch:
            self.watch, self.times_before = Watch(self.dir, [edgar]), dict(self.times)
            self.watch.start()
        try:
            r = edgar.open_edgar(*a)
        except ValueError:
            r = None
        finally:
            requests.Session.request = REAL["request"]
            brel.brel_filing.Filing.open = REAL["filing"]
            os.stat = REAL["stat"]
            if watch:
                self.watch.stop()
            for k, v in REAL_MODULE.items():
                edgar.__dict__[k] = v
        self.mark()
        if r is None and len(self.opened) > n:
            return "opened, and ValueError"
        if r is not None and self.opened[n:] != [r]:
            return "not what was opened"
        return r


class Stamp:
    def __init__(self, t):
        self.t = t

    def __sub__(self, o):
        if isinstance(o, Stamp):
            return Delta(self.t - o.t)
        return Stamp(self.t - seconds(o))

    def __add__(self, o):
        return Stamp(self.t + seconds(o))

    def __lt__(self, o):
        return self.t < o.t

    def __le__(self, o):
        return self.t <= o.t

    def __gt__(self, o):
        return self.t > o.t

    def __ge__(self, o):
        return self.t >= o.t

    def timestamp(self):
        return self.t


class Delta:
    def __init__(self, t):
        self.t = t
        self.days = t // DAY
        self.seconds = t % DAY
        self.microseconds = 0

    def total_seconds(self):
        return self.t

    def __lt__(self, o):
        return self.t < seconds(o)

    def __le__(self, o):
        return self.t <= seconds(o)

    def __gt__(self, o):
        return self.t > seconds(o)

    def __ge__(self, o):
        return self.t >= seconds(o)


def seconds(o):
    return o.t if isinstance(o, Delta) else int(o.total_seconds())


class Module:
    """Stand-in for the modules datetime and time."""

    def __init__(self, real, moment, world):
        self.real, self.datetime, self.world = real, moment, world

    def time(self):
        return self.world.now

    def __getattr__(self, n):
        return getattr(self.real, n)


class Clock:
    """Stand-in for what modules ask the clock."""

    def __init__(self, world):
        self.world = world

    def module(self, real):
        world = self.world

        class Moment:
            strptime = datetime.datetime.strptime
            fromisoformat = datetime.datetime.fromisoformat

            @staticmethod
            def now(tz=None):
                return Stamp(world.now)

            utcnow = today = now

            @staticmethod
            def fromtimestamp(t, tz=None):
                return Stamp(t)

            utcfromtimestamp = fromtimestamp

        if real is datetime.datetime:
            return Moment
        if isinstance(real, types.ModuleType):
            return Module(real, Moment, world)
        return lambda: world.now


FORMS = ["10-K", "10-Q", "8-K"]


def digits(S, name, n):
    return S.str(name, "0123456789", n)


def report_date(S, name, p):
    """A date YYYY-MM-DD with free digits."""
    d = p["digits"]
    y = "202" + digits(S, name + "y", 1) if "y" in d else "2023"
    m = "0" + S.str(name + "m", "123456789", 1) if "m" in d else "07"
    t = S.str(name + "d", "12", 1) + digits(S, name + "e", 1) if "d" in d else "30"
    return y + "-" + m + "-" + t


def listing(S, p, tag=""):
    """The metadata of a company with some filings, as EDGAR gives them."""
    r = {"accessionNumber": [], "reportDate": [], "form": [], "isXBRL": [], "primaryDocument": []}
    for i in range(p["filings"]):
        t = "%s%d" % (tag, i)
        r["accessionNumber"].append("0000320193-2%d-00000%d" % (i, i))
        r["form"].append(S.pick("form" + t, p["forms"]))
        r["isXBRL"].append(S.pick("xbrl" + t, p["xbrl"]))
        r["reportDate"].append("" if S.pick("dated" + t, p["dated"]) == 0 else report_date(S, "date" + t, p))
        r["primaryDocument"].append(S.pick("document" + t, ["a.htm", "a.xml", "a.htm.b.htm", "x.htm_1.xml"]) if p["documents"] else "aapl-%d.htm" % i)
    return {"name": "Apple Inc.", "filings": {"recent": r, "files": []}}


def address(cik, r, i):
    doc = r["primaryDocument"][i]
    if doc.endswith(".htm"):
        doc = doc[: len(doc) - 4] + "_htm.xml"
    return ARCHIVE % (cik, r["accessionNumber"][i].replace("-", ""), doc)


def best(S, meta, form, date):
    """The filing that is asked for: the one with the latest report date, of these the one listed first."""
    r = meta["filings"]["recent"]
    b = None
    for i in range(len(r["form"])):
        if r["form"][i] == form and r["isXBRL"][i] in (1, "1") and (date is None or r["reportDate"][i] == date):
            if b is None or r["reportDate"][i] > r["reportDate"][b]:
                b = i
    return b


def choice(S, p):
    """The filing that is opened is the most recent one of those that fit."""
    meta = listing(S, p)
    r = meta["filings"]["recent"]
    cik = S.pick("cik", p["ciks"])
    form = S.pick("asked form", FORMS[: p["asked"]])
    date = report_date(S, "asked date", p) if S.pick("by date", p["by date"]) else None
    S.assume(date is None or date[5:] != "02-29")
    padded = "0" * (10 - len(cik)) + cik
    there = S.pick("there", p["there"])
    web = [(DATA % padded, meta)]
    b = best(S, meta, form, date)
    if b is not None and there:
        web.append((address(padded, r, b), {}))
    if p["there"] != [1]:
        others = [i for i in range(len(r["form"])) if i != b]
        web += [(address(padded, r, i), {}) for i in others]
    w = World(web)
    got = w.open_edgar(cik, form, date) if date is not None or S.pick("default", [0, 1]) == 0 else w.open_edgar(cik, form)
    S.check(w.asked[0] == DATA % padded and all(u != DATA % padded for u in w.asked[1:]), "the list of the company's filings is fetched, once")
    if b is None:
        S.check(got is None, "without a filing that fits nothing is opened")
        S.cover("none")
    elif not there and r["primaryDocument"][b].endswith(".htm"):
        S.check(got is None, "without the instance of the filing nothing is opened")
        S.cover("unavailable")
    else:
        S.check(got is not None, "a filing that fits is opened")
        S.check_eq(got, address(padded, r, b), "the filing that is opened is the most recent one that fits")
        S.cover("opened")


def arguments(S, p):
    """Values that are no CIK, no form and no date are refused before anything is asked or written."""
    cik = S.str("cik", p["cik"], 0, p["n"]) if p["cik"] else "320193"
    form = "10-K"
    date = None
    if p["date"]:
        date = "2023-0" + S.str("date", p["date"], 2) + S.str("day", p["date"], p["lo"], p["hi"])
    if p["other"]:
        cik, form, date = S.pick("other", [(320193, "10-K", None), (None, "10-K", None), ("320193", "10-Z", None), ("320193", "10-k", None), ("320193", "", None), ("320193", None, None), ("320193", "10-K", 2023), ("320193", "10-K", ""), ("12345678901", "10-K", None), ("320193", "10-K", "30.09.2023"), ("../e0/abcd", "10-K", None), ("", "10-K", None)])
    good = True
    if p["cik"]:
        good = 0 < len(cik) <= 10 and all(S.any_of(*[c == x for x in "0123456789"]) for c in cik)
    elif p["date"]:
        good = date[4:] in VALID_ENDS
    else:
        good = False
    meta = {"name": "Apple Inc.", "filings": {"recent": {"accessionNumber": ["0-1"], "reportDate": [date if p["date"] and len(date) == 10 else "2023-01-10"], "form": ["10-K"], "isXBRL": [1], "primaryDocument": ["a.xml"]}}}
    w = World([])
    os.makedirs(w.home + "/e0")
    w.request = lambda method, url, **k: (w.asked.append(url), Answer(200, meta))[1]
    got = w.open_edgar(cik, form, date)
    S.check(sorted(os.listdir(w.home)) == [NAME, "e0"] and os.listdir(w.home + "/e0") == [], "nothing is written outside of the cache")
    if good:
        S.check(got is not None, "good arguments are accepted")
        S.cover("good")
    else:
        S.check(got is None, "a value that is no CIK, no form or no date is refused")
        S.check(p["date"] or (w.asked == [] and os.listdir(w.dir) == []), "nothing is asked or written for values that are refused")
        S.cover("refused")


VALID_ENDS = ["-0%d-%02d" % (m, d) for m in range(1, 10) for d in range(1, [31, 28, 31, 30, 31, 30, 31, 31, 30][m - 1] + 1)]


def lists(S, p, tag, k):
    """k lists of a company; each differs from the others in the filing that fits."""
    out = []
    for i in range(k):
        r = {"accessionNumber": ["%s-%d" % (tag, i)], "reportDate": ["2023-07-30"], "form": ["10-K"], "isXBRL": [1], "primaryDocument": ["a%s%d.xml" % (tag, i)]}
        out.append({"name": "n", "filings": {"recent": r}})
    return out


def history(S, p):
    """Histories of calls: the lists are those of the company asked for, and never more than a day old."""
    ciks = ["320193", "0000320194"][: p["ciks"]]
    fetched = {}
    versions = {c: lists(S, p, c, p["steps"]) for c in ciks}
    w = World([])
    for i in range(p["steps"]):
        gap = S.int("gap%d" % i, 0, p["days"] * DAY) if i else 0
        w.now = w.now + gap
        c = S.pick("cik%d" % i, ciks)
        padded = "0" * (10 - len(c)) + c
        there = S.pick("there%d" % i, [1, 0])
        w.web = [(DATA % ("0" * (10 - len(x)) + x), versions[x][i] if there else None) for x in ciks]
        w.asked = []
        got = w.open_edgar(c, "10-K")
        if c not in fetched:
            fresh = False
            S.cover("first")
        else:
            age = w.now - fetched[c][0]
            S.assume(age != DAY)
            fresh = age < DAY
            S.cover("kept" if fresh else "old")
        if fresh:
            S.check(w.asked == [], "a list that is less than a day old is not fetched again")
        else:
            S.check_eq(w.asked, [DATA % padded], "a list that is not there, or more than a day old, is fetched")
            if there:
                fetched[c] = (w.now, i)
        if fresh or there:
            r = versions[c][fetched[c][1]]["filings"]["recent"]
            S.check_eq(got, address(padded, r, 0), "the filing is one of the company's list that was fetched last")
        else:
            S.check(got is None, "without a list of filings that is at most a day old nothing is opened")
            S.cover("unavailable")


def interrupted(S, p):
    """The program stops while a list is written: later calls use a whole list, at most a day old."""
    c, padded = "320193", "0000320193"
    versions = lists(S, p, c, 3)
    w = World([])
    if p["before"]:
        w.web = [(DATA % padded, versions[0])]
        w.open_edgar(c, "10-K")
        w.now = w.now + S.int("first gap", 0, 3 * DAY)
        S.assume(w.now != DAY)
    w.web = [(DATA % padded, versions[1])]
    w.open_edgar(c, "10-K", watch=True)
    n = S.int("stopped after", 0, p["points"] - 1)
    S.assume(n < len(w.watch.states))
    n = S.concrete(n)
    w.restore(n)
    gap = S.int("second gap", 0, 3 * DAY)
    w.now = w.now + gap
    w.web = [(DATA % padded, versions[2])]
    w.asked = []
    try:
        got = w.open_edgar(c, "10-K", None)
    except Exception as e:
        got = repr(e)
    S.assume(gap != DAY)
    if p["before"]:
        S.assume(w.now != DAY)
    good = []
    if w.asked == [DATA % padded]:
        good = [versions[2]]
        S.cover("fetched again")
    else:
        S.check(w.asked == [], "the list is fetched at most once")
        if gap < DAY:
            good.append(versions[1])
        if p["before"] and w.now < DAY:
            good.append(versions[0])
        S.cover("kept")
    S.check(any(got == address(padded, g["filings"]["recent"], 0) for g in good), "after the program was stopped a whole list is used that is at most a day old")


BASE = dict(filings=2, forms=FORMS[:2] + ["10-K/A"], xbrl=[1, 0], dated=[1], documents=0, digits="y", ciks=["320193"], asked=2, there=[1])
BASE["by date"] = [0]

HARNESSES = [
    Harness(
        choice,
        quick=[
            dict(BASE, filings=3, forms=["10-K", "10-Q"], digits="ym", asked=1, xbrl=[1]),
            dict(BASE, filings=3, forms=["8-K"], digits="d", asked=3, xbrl=[1, "1"]),
            dict(BASE, digits="md", **{"by date": [1]}),
            dict(BASE, dated=[1, 0], forms=["10-K", "10-Q"], xbrl=[1, 0, "1", "0"]),
            dict(BASE, documents=1, forms=["10-K", "10-Q"], ciks=["320193", "1", "1234567890", "0000320193"], asked=1, there=[1, 0], xbrl=[1]),
        ],
        thorough=[
            dict(BASE, filings=4, forms=["10-K", "10-Q"], digits="ymd", asked=1, _split={"form0": 2, "form1": 2, "xbrl0": 2}),
            dict(BASE, filings=3, digits="ymd", asked=3, forms=FORMS + ["10-K/A"], **{"by date": [0, 1]}, _split={"form0": 4, "form1": 4}),
            dict(BASE, filings=5, forms=["10-K"], digits="ymd", asked=1, xbrl=[1], _split={"default": 2}),
            dict(BASE, filings=3, dated=[1, 0], forms=["10-K", "10-Q"], xbrl=[1, 0, "1", "0"], _split={"xbrl0": 4, "form0": 2}),
            dict(BASE, filings=3, documents=1, forms=["10-K", "10-Q"], ciks=["320193", "1", "1234567890", "0000320193"], asked=2, there=[1, 0], xbrl=[1], _split={"form0": 2, "cik": 4}),
        ],
        covers=["opened", "none", "unavailable"],
        bounds="2-3 (thorough 5) filings with free forms of up to 4, flags, report dates with 1-3 (thorough 4) free digits or none, 4 shapes of document names; the form and the date asked for are free",
    ),
    Harness(
        arguments,
        quick=[dict(cik="09./", n=4, date="", other=0), dict(cik="", date="0129-", lo=1, hi=4, other=0), dict(cik="", date="", other=1)],
        thorough=[dict(cik="09./\\A-", n=5, date="", other=0), dict(cik="9x", n=12, date="", other=0), dict(cik="", date="012359-/", lo=1, hi=5, other=0), dict(cik="", date="", other=1)],
        covers=["good", "refused"],
        bounds="CIKs of up to 4 (thorough 12) free characters of digits and path characters, dates with 3-6 (thorough 7) free characters, 12 further values",
    ),
    Harness(
        history,
        quick=[dict(steps=3, ciks=1, days=3), dict(steps=2, ciks=2, days=2)],
        thorough=[dict(steps=4, ciks=2, days=3, _split={"cik1": 2, "cik2": 2, "there1": 2, "there2": 2})],
        covers=["first", "kept", "old", "unavailable"],
        bounds="2-3 (thorough 4) calls for 1-2 companies with free gaps of up to 3 days in seconds; each list is available or not",
    ),
    Harness(
        interrupted,
        quick=[dict(before=0, points=400), dict(before=1, points=400)],
        covers=["fetched again", "kept"],
        bounds="the program stops before or after any write, in the middle of it, or around renaming; free gaps of up to 3 days before and after",
    ),
]
ASSUMPTIONS = ["requests.Session.request, Filing.open, os.stat of cached files and the clock are stand-ins; the files of the cache are real files in a scratch directory; a stopped program leaves what was written so far"]
