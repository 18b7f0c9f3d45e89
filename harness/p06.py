"""P06: periods."""
from harness.lib import *
from sx.api import Harness

PROPERTY = "P06"
DIG = "0123456789"


def days(y, m):
    if m in (4, 6, 9, 11):
        return 30
    if m != 2:
        return 31
    if y % 400 == 0 or (y % 4 == 0 and y % 100 != 0):
        return 29
    return 28


def calendar(y, m, d):
    return m >= 1 and m <= 12 and y >= 1 and d >= 1 and d <= days(y, m)


def digits(t):
    for ch in t:
        if ch not in DIG:
            return False
    return True


def lexical(t):
    """(y, m, d) of an xs:date or xs:dateTime, None when t is neither."""
    t = t.strip(" \t\n\r")
    if len(t) < 10 or not digits(t[:4]) or t[4] != "-" or not digits(t[5:7]) or t[7] != "-" or not digits(t[8:10]):
        return None
    r = t[10:]
    if r != "" and r[0] == "T":
        if len(r) < 9 or not digits(r[1:3]) or r[3] != ":" or not digits(r[4:6]) or r[6] != ":" or not digits(r[7:9]):
            return None
        h, mi, s = int(r[1:3]), int(r[4:6]), int(r[7:9])
        if mi > 59 or s > 59 or h > 24 or (h == 24 and (mi > 0 or s > 0)):
            return None
        r = r[9:]
        if r != "" and r[0] == ".":
            i = 1
            while i < len(r) and r[i] in DIG:
                if h == 24 and r[i] != "0":
                    return None
                i = i + 1
            if i == 1:
                return None
            r = r[i:]
    if r != "" and r != "Z":
        if len(r) != 6 or r[0] not in "+-" or not digits(r[1:3]) or r[3] != ":" or not digits(r[4:6]):
            return None
    y, m, d = int(t[:4]), int(t[5:7]), int(t[8:10])
    if not calendar(y, m, d):
        return None
    return y, m, d


def ask(S, *periods):
    """One fact per period."""
    parts = []
    for i, p in enumerate(periods):
        parts.append(context_el("c%d" % i, period=p))
    for i, p in enumerate(periods):
        parts.append(el("ex:A", {"id": "f%d" % i, "contextRef": "c%d" % i, "unitRef": "u"}, text="1"))
    f = open_xml([("i.xml", instance(*parts, unit_el("u"))), ("ex.xsd", schema(NS["ex"], ("ex_A", "A")))])
    facts = {x.get_id(): x for x in f.get_all_facts()}
    S.check(len(facts) == len(periods), "a bad period does not lose the fact")
    return [facts["f%d" % i].get_period() for i in range(len(periods))], codes(f)


def is_instant(S, p, y, m, d):
    S.check(p is not None and p.is_instant(), "an instant is reported as an instant")
    g = p.get_instant_period()
    S.check(g.year == y, "year of an instant")
    S.check(g.month == m, "month of an instant")
    S.check(g.day == d, "day of an instant")
    S.check(raises(p.get_start_period) == "ValueError" and raises(p.get_end_period) == "ValueError", "an instant has no start and end")
    S.observe("period", str(p))


def is_duration(S, p, a, b):
    S.check(p is not None and not p.is_instant(), "a duration is reported as a duration")
    for g, (y, m, d) in ((p.get_start_period(), a), (p.get_end_period(), b)):
        S.check(g.year == y and g.month == m and g.day == d, "start and end of a duration")
    S.check(raises(p.get_instant_period) == "ValueError", "a duration has no instant")
    S.observe("period", str(p))


def date_digits(S, name, p):
    return S.str(name + "y", DIG, 4) + "-" + S.str(name + "m", DIG, 2) + "-" + S.str(name + "d", DIG, 2)


def any_instant(S, p):
    """Every digit free."""
    t = date_digits(S, "a", p)
    suffix = p.get("suffix", "")
    (per,), cs = ask(S, instant(p.get("pad", "") + t + suffix + p.get("pad", "")))
    y, m, d = int(t[:4]), int(t[5:7]), int(t[8:])
    if calendar(y, m, d):
        S.check(cs == [], "no error for a calendar date")
        is_instant(S, per, y, m, d)
        S.check(str(per) == t, "an instant prints as its date")
        S.cover("valid")
    else:
        S.check(per is None and cs == ["INVALID_CONTEXT_PERIOD_DATE"], "what is no calendar date is an error and no period")
        S.cover("invalid")


def any_text(S, p):
    """A valid text with some characters replaced, or any short text."""
    if "base" in p:
        a = p["base"]
        t = a[: p["at"]] + S.str("t", p["alpha"], p["lo"], p["hi"]) + a[p["at"] + p["cut"] :]
    else:
        t = S.str("t", p["alpha"], p["n"])
    (per,), cs = ask(S, instant(t))
    want = lexical(t)
    if want is not None:
        S.check(cs == [], "no error for a date")
        is_instant(S, per, *want)
        S.cover("valid")
    else:
        S.check(per is None and cs == ["INVALID_CONTEXT_PERIOD_DATE"], "what is no date is an error and no period")
        S.cover("invalid")


def any_duration(S, p):
    """Two dates of which the given parts are free."""
    ts = []
    for i, n in enumerate("ab"):
        y = S.str(n + "y", DIG, 2) if p["free"][i] & 4 else "20"
        m = S.str(n + "m", DIG, 2) if p["free"][i] & 2 else "02"
        d = S.str(n + "d", DIG, 2) if p["free"][i] & 1 else "15"
        ts.append("20" + y + "-" + m + "-" + d)
    (per,), cs = ask(S, duration(*ts))
    vals = [(int(t[:4]), int(t[5:7]), int(t[8:])) for t in ts]
    bad = [v for v in vals if not calendar(*v)]
    if bad:
        S.check(per is None and cs == ["INVALID_CONTEXT_PERIOD_DATE"] * len(bad), "a duration with a bad date is an error and no period")
        S.cover("invalid")
        return
    (y1, m1, d1), (y2, m2, d2) = vals
    if y2 * 10000 + m2 * 100 + d2 < y1 * 10000 + m1 * 100 + d1:
        S.check(per is None and cs == ["DURATION_PERIOD_START_AFTER_END"], "a duration ending before it starts is an error and no period")
        S.cover("reversed")
        return
    S.check(cs == [], "no error for a duration")
    is_duration(S, per, *vals)
    S.cover("valid")


def several(S, p):
    """Periods do not leak between contexts; equality of periods."""
    ds = ["202%s-0%s-01" % (S.str("y%d" % i, "01", 1), S.str("m%d" % i, "12", 1)) for i in range(4)]
    kinds = p["kinds"]
    pers = []
    want = []
    for i, k in enumerate(kinds):
        a, b = ds[2 * i], ds[2 * i + 1]
        if k == "i":
            pers.append(instant(a))
            want.append((a,))
        else:
            pers.append(duration(a, b))
            want.append((a, b) if a <= b else None)
    got, cs = ask(S, *pers)
    S.check(len(cs) == len([w for w in want if w is None]), "one error per bad period")
    for g, w in zip(got, want):
        if w is None:
            S.check(g is None, "no period for a bad one")
        elif len(w) == 1:
            S.check(g.is_instant() and str(g.get_instant_period()) == w[0], "each fact has the instant of its own context")
        else:
            S.check(not g.is_instant() and str(g.get_start_period()) == w[0] and str(g.get_end_period()) == w[1], "each fact has the duration of its own context")
    if want[0] is not None and want[1] is not None:
        S.check((got[0] == got[1]) == (want[0] == want[1]), "periods are equal exactly when kind and dates are")
        S.cover("both")


def many(S, p):
    """Eight contexts with periods, two of them free."""
    pers, want = [], []
    at = S.pick("at", [0, 3, 6])
    for i in range(8):
        a, b = "20%d1-0%d-15" % (i + 1, i % 3 + 1), "20%d1-0%d-14" % (i + 1, i % 2 + 2)
        if i in (at, at + 1):
            a = "20" + S.str("y%d" % i, "13", 1) + "1-02-1" + S.str("d%d" % i, "45", 1)
        if i % 3 == 0:
            pers.append(instant(a))
            want.append((a,))
        else:
            pers.append(duration(a, b))
            want.append((a, b) if a <= b else None)
    got, cs = ask(S, *pers)
    S.check(len(cs) == len([w for w in want if w is None]), "one error per bad period")
    for g, w in zip(got, want):
        if w is None:
            S.check(g is None, "no period for a bad one")
            S.cover("bad")
        elif len(w) == 1:
            S.check(g.is_instant() and str(g.get_instant_period()) == w[0], "each fact has the instant of its own context")
        else:
            S.check(not g.is_instant() and str(g.get_start_period()) == w[0] and str(g.get_end_period()) == w[1], "each fact has the duration of its own context")
    S.cover("reached")


def shape(S, p):
    """Missing and extra parts of a period."""
    parts = []
    has = {}
    for n in ("instant", "startDate", "endDate"):
        has[n] = S.pick(n, [None, "2020-01-01", "", "x"])
        if has[n] is not None:
            parts.append(el("xbrli:" + n, None, text=has[n] or None))
    if S.pick("order", [0, 1]):
        parts.reverse()
    (per,), cs = ask(S, el("xbrli:period", None, *parts))
    if has["instant"] is not None:
        if has["instant"] == "2020-01-01":
            S.check(cs == [], "no error")
            is_instant(S, per, 2020, 1, 1)
        else:
            S.check(per is None and cs == ["INVALID_CONTEXT_PERIOD_DATE"], "a bad instant is an error")
    elif has["startDate"] is None or has["endDate"] is None:
        n = "DURATION_PERIOD_MISSING_START_DATE" if has["startDate"] is None else "DURATION_PERIOD_MISSING_END_DATE"
        S.check(per is None and cs == [n], "a missing date is an error")
    else:
        bad = [n for n in ("startDate", "endDate") if has[n] != "2020-01-01"]
        if bad:
            S.check(per is None and cs == ["INVALID_CONTEXT_PERIOD_DATE"] * len(bad), "a bad date is an error")
        else:
            S.check(cs == [], "no error")
            is_duration(S, per, (2020, 1, 1), (2020, 1, 1))
    S.cover("reached")


BASES = ["2020-02-29", "1999-12-31T23:59:59", "2020-06-30T24:00:00", "2020-02-29Z", "2020-02-29+01:00", "2020-02-28T00:00:00.5-05:00"]
ALPHA = "0123456789-T:Z+. "
HARNESSES = [
    Harness(any_instant, quick=[dict(), dict(suffix="T00:00:00"), dict(pad="\n  ")], thorough=[dict(), dict(suffix="T12:30:00"), dict(suffix="Z"), dict(pad=" "), dict(suffix="T24:00:00-02:00")], covers=["valid", "invalid"], bounds="all dddd-dd-dd texts, bare, padded, with a time or a zone"),
    Harness(
        any_text,
        quick=[dict(base=b, at=i, cut=1, lo=0, hi=1, alpha=ALPHA) for b in BASES for i in range(len(b))] + [dict(n=n, alpha=ALPHA + "MayJ/,") for n in (0, 1, 2, 3)],
        thorough=[dict(base=b, at=i, cut=2, lo=0, hi=3, alpha=ALPHA) for b in BASES for i in range(len(b))] + [dict(n=n, alpha=ALPHA + "MayJ/,") for n in (0, 1, 2, 3, 4)],
        covers=["valid", "invalid"],
        bounds="each of 6 valid texts with any 1 (2) characters replaced by up to 1 (3) characters of a 17 letter alphabet; all texts of up to 3 (4) characters",
    ),
    Harness(
        any_duration,
        quick=[dict(free=(7, 0)), dict(free=(0, 7)), dict(free=(3, 3))],
        thorough=[dict(free=(7, 7))],
        covers=["valid", "invalid", "reversed"],
        bounds="start and end dates in 2000-2099 with all digits of one (both) free",
    ),
    Harness(many, covers=["bad", "reached"], bounds="eight contexts with periods, two of them with free years and days"),
    Harness(several, quick=[dict(kinds=k) for k in ("ii", "id", "dd")], covers=["both"], bounds="two contexts with periods over 4 dates"),
    Harness(shape, covers=["reached"], bounds="every combination of present, absent, empty and malformed instant, startDate and endDate in both orders"),
]
ASSUMPTIONS = ["one instance document; the unsupported 'forever' period is outside the property"]
