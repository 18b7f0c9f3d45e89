"""P04: dates and fixed values of inline facts."""
from harness.lib import *
from sx.api import Harness

PROPERTY = "P04"
HEADER = "IXBRL_REFERENCES_ELEMENT_WITHOUT_CHILDREN"
DIG = "0123456789"
NOMATCH = "DATE_DOES_NOT_MATCH_EXPECTED_FORMAT"
INVALID = "INVALID_GREGORIAN_DATE"
NOMONTH = ("MONTH_OR_DAY_NOT_PRESENT_IN_RECURRING_DATE", "YEAR_OR_MONTH_NOT_PRESENT_IN_NON_RECURRING_DATE")

# The month names of the transformation registry (what a name may start with) and the names in full.
ABBR = {
    "bg": "ян фев мар апр май/маи юни юли авг сеп окт ное дек",
    "cs": "led úno/uno bře/bre dub kvě/kve čvn/cvn čvc/cvc srp zář/zar říj/rij lis pro",
    "cy": "ion chwe maw ebr mai meh gor aws med hyd tach rhag",
    "da": "jan feb mar apr maj jun jul aug sep okt nov dec",
    "de": "jan/jän/jaen feb mär/maer/mar apr mai jun jul aug sep okt nov dez",
    "el": "ιαν/ίαν φεβ μάρ/μαρ απρ/άπρ/αρίλ/άρίλ/αριλ/άριλ μαΐ/μαι/μάι/μαϊ/μάϊ ιούν/ίούν/ίουν/ιουν ιούλ/ίούλ/ίουλ/ιουλ αύγ/αυγ σεπ οκτ/όκτ νοέ/νοε δεκ",
    "en": "jan feb mar apr may jun jul aug sep oct nov dec",
    "es": "ene feb mar abr may jun jul ago sep oct nov dic",
    "et": "jaan veebr märts/marts apr mai juuni juuli aug sept okt nov dets",
    "fi": "tam hel maa huh tou kes hei elo syy lok mar jou",
    "fr": "janv févr/fevr mars avr mai juin juil août/aout sept oct nov déc/dec",
    "hi": "जनवरी फरवरी मार्च अप्रैल मई जून जुलाई अगस्त सितंबर अक्टूबर नवंबर दिसंबर",
    "hr": "sij velj ožu/ozu tra svi lip srp kol ruj lis stu pro",
    "hu": "jan feb márc/marc ápr/apr máj/maj jún/jun júl/jul aug szept okt nov dec",
    "it": "gen feb mar apr mag giu lug ago set ott nov dic",
    "lt": "sau vas kov bal geg bir lie rugp/rgp rugs/rgs spa/spl lap gru/grd",
    "lv": "janv febr marts apr maijs jūn/jun jūl/jul aug sept okt nov dec",
    "nl": "jan feb maa/mrt apr mei jun jul aug sep okt nov dec",
    "no": "jan feb mar apr mai jun jul aug sep okt nov des",
    "pl": "sty lut mar kwi maj cze lip sie wrz paź/paz lis gru",
    "pt": "jan fev mar abr mai jun jul ago set out nov dez",
    "ro": "ian feb mar apr mai iun iul aug sep oct noi/nov dec",
    "sk": "jan feb mar apr máj/maj jún/jun júl/jul aug sep okt nov dec",
    "sl": "jan feb mar apr maj jun jul avg sep okt nov dec",
    "sv": "jan feb mar apr maj jun jul aug sep okt nov dec",
}
FULL = {
    "bg": "януари февруари март април май юни юли август септември октомври ноември декември",
    "cs": "ledna února/unora března/brezna dubna května/kvetna června/cervna července/cervence srpna září/zari října/rijna listopadu prosince",
    "cy": "ionawr chwefror mawrth ebrill mai mehefin gorffennaf awst medi hydref tachwedd rhagfyr",
    "da": "januar februar marts april maj juni juli august september oktober november december",
    "de": "januar/jänner/jaenner februar märz/maerz april mai juni juli august september oktober november dezember",
    "el": "ιανουαρίου φεβρουαρίου μαρτίου απριλίου μαΐου ιουνίου ιουλίου αυγούστου σεπτεμβρίου οκτωβρίου νοεμβρίου δεκεμβρίου",
    "en": "january february march april may june july august september october november december",
    "es": "enero febrero marzo abril mayo junio julio agosto septiembre octubre noviembre diciembre",
    "et": "jaanuar veebruar märts aprill mai juuni juuli august september oktoober november detsember",
    "fi": "tammikuuta helmikuuta maaliskuuta huhtikuuta toukokuuta kesäkuuta heinäkuuta elokuuta syyskuuta lokakuuta marraskuuta joulukuuta",
    "fr": "janvier février mars avril mai juin juillet août septembre octobre novembre décembre",
    "hi": "जनवरी फरवरी मार्च अप्रैल मई जून जुलाई अगस्त सितंबर अक्टूबर नवंबर दिसंबर",
    "hr": "siječnja veljače ožujka travnja svibnja lipnja srpnja kolovoza rujna listopada studenoga prosinca",
    "hu": "január február március április május június július augusztus szeptember október november december",
    "it": "gennaio febbraio marzo aprile maggio giugno luglio agosto settembre ottobre novembre dicembre",
    "lt": "sausio vasario kovo balandžio gegužės birželio liepos rugpjūčio rugsėjo spalio lapkričio gruodžio",
    "lv": "janvāris februāris marts aprīlis maijs jūnijs jūlijs augusts septembris oktobris novembris decembris",
    "nl": "januari februari maart april mei juni juli augustus september oktober november december",
    "no": "januar februar mars april mai juni juli august september oktober november desember",
    "pl": "stycznia lutego marca kwietnia maja czerwca lipca sierpnia września października listopada grudnia",
    "pt": "janeiro fevereiro março abril maio junho julho agosto setembro outubro novembro dezembro",
    "ro": "ianuarie februarie martie aprilie mai iunie iulie august septembrie octombrie noiembrie decembrie",
    "sk": "januára februára marca apríla mája júna júla augusta septembra októbra novembra decembra",
    "sl": "januar februar marec april maj junij julij avgust september oktober november december",
    "sv": "januari februari mars april maj juni juli augusti september oktober november december",
}
# further forms without a day
ALONE = {
    "cs": "leden/lednu únor/unor/únoru/unoru březen/brezen/březnu/breznu duben/dubnu květen/kveten/květnu/kvetnu červen/cerven/červnu/cervnu červenec/cervenec/červenci/cervenci srpen/srpnu září/zari říjen/rijen/říjnu/rijnu listopad/listopadu prosinec/prosinci",
    "cy": "ion chwe faw ebr fai feh ngor aws fed hyd dach/nhach/thach rag",
}
# latin letters that the registry admits in greek capitals, and a decomposed letter
MIXED = {"el": {1: "IΑΝ Iαν", 4: "AΠΡ AΡΙΛ Aπρ Aριλ Aρίλ", 5: "ΜΑΙ\u0308\u0301", 6: "IΟΥΝ Iουν Iούν", 7: "IΟΥΛ Iουλ Iούλ IΟΎΛ", 10: "OΚΤ Oκτ"}}
DMY = (("day-monthname", "dm"), ("day-monthname-year", "dmy"), ("monthname-year", "my"))
ORDERS = {l: DMY for l in ABBR}
ORDERS["en"] = DMY + (("monthname-day", "md"), ("monthname-day-year", "mdy"), ("year-monthname", "ym"))
ORDERS["hu"] = ORDERS["lt"] = (("monthname-day", "md"), ("year-monthname-day", "ymd"), ("year-monthname", "ym"))
ORDERS["lv"] = (("day-monthname", "dm"), ("year-day-monthname", "ydm"), ("year-monthname", "ym"))
ORDERS["hi"] = (("day-monthname-year", "dmy"), ("monthname-year", "my"))

NUMERIC = {
    "ixt:date-day-month": "dm",
    "ixt:date-month-day": "md",
    "ixt:date-day-month-year": "dmy",
    "ixt:date-month-day-year": "mdy",
    "ixt:date-year-month-day": "ymd",
    "ixt:date-year-month": "ym",
    "ixt:date-month-year": "my",
}
DEVANAGARI = "०१२३४५६७८९"
WIDE = "０１２３４５６７８９"
OTHER = {
    "ixt:date-day-month-year": DEVANAGARI,
    "ixt:date-month-year": DEVANAGARI,
    "ixt:date-year-month-day": WIDE,
    "ixt:date-year-month": WIDE,
}
# legacy name -> order, with a month name (of that language) or a number
LEGACY = {
    "datedaymonth": ("dm", None), "datedaymonthdk": ("dm", "da"), "datedaymonthen": ("dm", "en"), "datedaymonthyear": ("dmy", None),
    "datedaymonthyeardk": ("dmy", "da"), "datedaymonthyearen": ("dmy", "en"), "datedaymonthyearin": ("dmy", "hi"), "datemonthday": ("md", None),
    "datemonthdayen": ("md", "en"), "datemonthdayyear": ("mdy", None), "datemonthdayyearen": ("mdy", "en"), "datemonthyear": ("my", None),
    "datemonthyeardk": ("my", "da"), "datemonthyearen": ("my", "en"), "datemonthyearin": ("my", "hi"), "dateyearmonthday": ("ymd", None),
    "dateyearmonthdaycjk": ("ymd", None), "dateyearmonthcjk": ("ym", None), "dateyearmonthen": ("ym", "en"),
    "datedoteu": ("dmy", None), "datedotus": ("mdy", None), "datelonguk": ("dmy", "en"), "datelongus": ("mdy", "en"), "dateshortuk": ("dmy", "en"),
    "dateshortus": ("mdy", "en"), "dateslasheu": ("dmy", None), "dateslashus": ("mdy", None), "datelongdaymonthuk": ("dm", "en"),
    "datelongmonthdayus": ("md", "en"), "dateshortdaymonthuk": ("dm", "en"), "dateshortmonthdayus": ("md", "en"), "dateslashdaymontheu": ("dm", None),
    "dateslashmonthdayus": ("md", None), "datelongyearmonth": ("ym", "en"), "dateshortyearmonth": ("ym", "en"), "datelongmonthyear": ("my", "en"),
    "dateshortmonthyear": ("my", "en"),
}


def cased(name):
    out = []
    for n in (name, name.upper(), name[0].upper() + name[1:]):
        if n not in out:
            out.append(n)
    return out


def forms(lang, order, full):
    """All (month, name) of a language."""
    out = []
    tables = [FULL] if full else [ABBR]
    if "d" not in order and lang in ALONE:
        tables.append(ALONE)
    for t in tables:
        for m, names in enumerate(t[lang].split()):
            for n in names.split("/"):
                for c in cased(n):
                    if lang == "en" and c == n or c in ("ΑΡΊΛ", "ΆΡΊΛ"):
                        continue
                    if full and c == n.upper() and lang not in ("en", "de", "cs"):
                        continue
                    out.append((m + 1, c))
    if not full:
        for m, names in MIXED.get(lang, {}).items():
            out += [(m, n) for n in names.split()]
    return out


def report(S, text, fmt):
    d = inline([el("ix:nonNumeric", {"id": "f1", "name": "ex:A", "contextRef": "c1", "format": fmt}, text=text)], [context_el("c1")])
    f = open_xhtml([("d.htm", d), ("ex.xsd", schema(NS["ex"], ("ex_A", "A", {"type": "xbrli:stringItemType"})))])
    cs = [c for c in codes(f) if c != HEADER]
    facts = f.get_all_facts()
    S.check(len(facts) == 1, "exactly one fact is reported")
    v = str(facts[0])
    S.observe("value", v)
    S.observe("codes", cs)
    return v, cs


def two(s):
    return "0" + s if len(s) == 1 else s


def four(s):
    return "200" + s if len(s) == 1 else "20" + s if len(s) == 2 else s


def month_days(y, m):
    """y may be symbolic"""
    if m == 2:
        return 29 if (y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)) else 28
    return 30 if m in (4, 6, 9, 11) else 31


def judge(S, text, fmt, order, day, month, year):
    """The fact with the parts day, year (digit strings) and month (a number) is read as such."""
    v, cs = report(S, text, fmt)
    if month is None:
        S.check(len(cs) == 1 and v == text, "a month that does not exist is reported and nothing is made up")
        S.cover("invalid")
        return
    ok = True
    y = four(year) if "y" in order else "2020"
    if y == "0000":
        ok = False
    if "d" in order:
        d = int(day)
        if ok and (d < 1 or d > month_days(int(y), month)):
            ok = False
        if d < 1 or d > 31:
            ok = False
    m = two(str(month))
    if "y" not in order:
        want = "--" + m + "-" + two(day)
    elif "d" in order:
        want = y + "-" + m + "-" + two(day)
    else:
        want = y + "-" + m
    if ok:
        S.check(cs == [], "no error for a date that exists")
        S.check_eq(v, want, "the date that is displayed")
        S.cover("valid")
    else:
        S.check(cs == [INVALID], "a date that does not exist is reported")
        S.cover("invalid")


def written(S, order, month, seps, dd, yy, trail=""):
    """(text, day, year) with the month text given"""
    day = S.str("day", DIG, dd) if "d" in order else None
    year = S.str("year", DIG, yy) if "y" in order else None
    text = ""
    for i, k in enumerate(order):
        text = text + (seps[i - 1] if i else "") + {"d": day, "m": month, "y": year}[k]
    return text + trail, day, year


def names(S, p):
    """Month names in every language."""
    lang = p["lang"]
    kind, order = S.pick("kind", list(ORDERS[lang]))
    month, name = S.pick("name", forms(lang, order, p["full"]))
    sep = S.pick("sep", p["seps"])
    if order[-1] == "m" and lang in ("hu", "lt") and S.pick("dot", [False, True]):
        text, day, year = written(S, order, name, (sep, sep), p["dd"], p["yy"], ".")
    else:
        text, day, year = written(S, order, name, (sep, sep), p["dd"], p["yy"])
    judge(S, text, "ixt:date-%s-%s" % (kind, lang), order, day, month, year)


def numeric(S, p):
    """Months as numbers."""
    fmt = p["fmt"]
    order = NUMERIC[fmt]
    mon = S.str("mon", DIG, p["mm"])
    seps = [S.str("sep%d" % i, "./- a年", 1) for i in range(len(order) - 1)]
    pad = S.pick("pad", ["", " ", "\n"])
    trail = S.pick("trail", ["", "日"] if order[0] == "y" else [""])
    text, day, year = written(S, order, mon, seps, p["dd"], p["yy"], trail)
    n = int(mon)
    month = None
    for m in range(1, 13):
        if n == m:
            month = m
    v_text = pad + text + pad
    if month is None:
        v, cs = report(S, v_text, fmt)
        S.check(len(cs) == 1 and cs[0] in NOMONTH, "a month that does not exist is reported")
        S.check_eq(v, text, "and nothing is made up")
        S.cover("invalid")
    else:
        judge(S, v_text, fmt, order, day, month, year)


def digits(S, p):
    """Devanagari and full width digits."""
    fmt, order = p["fmt"], NUMERIC[p["fmt"]]
    table = OTHER[fmt]
    month = S.pick("month", [1, 9, 12])
    vals = {"m": two(str(month)), "d": S.pick("day", ["1", "08", "19", "27"]), "y": S.pick("year", ["2034", "56", "1978"])}
    other = S.pick("other", [True, False])
    text = ""
    for i, k in enumerate(order):
        for ch in vals[k]:
            one = table[int(ch)] if other else ch
            text = text + one
        other = S.bool("mix%d" % i) if p["mix"] else other
        if i + 1 < len(order):
            text = text + "."
    judge(S, text, fmt, order, vals["d"], month, vals["y"])


def roman(S, p):
    kind, order = S.pick("kind", [("day-monthroman", "dm"), ("day-monthroman-year", "dmy"), ("monthroman-year", "my")])
    numerals = ["I", "II", "III", "IV", "V", "VI", "VII", "VIII", "IX", "X", "XI", "XII", "XIII", "IXI", "IVII", "IXII"]
    k = S.pick("roman", list(range(16)))
    low = S.pick("low", [False, True])
    name = numerals[k].lower() if low else numerals[k]
    sep = S.pick("sep", [" ", "."])
    text, day, year = written(S, order, name, (sep, sep), p["dd"], p["yy"])
    judge(S, text, "ixt:date-" + kind, order, day, k + 1 if k < 12 else None, year)


def rejected(S, p):
    """Digit groups that are not a date of the format."""
    fmt = p["fmt"]
    order = NUMERIC[fmt]
    text = S.str("text", "0129 .a", p["n"])
    t = text.strip()
    runs = []
    inside = False
    first = last = False
    for i, ch in enumerate(t):
        d = ch in DIG
        if d:
            if inside:
                runs[-1] = runs[-1] + 1
            else:
                runs.append(1)
            inside = True
        else:
            inside = False
        if i == 0:
            first = d
        last = d
    good = len(runs) == len(order) and first and (last or order[0] == "y")
    if good:
        for k, r in zip(order, runs):
            if not (r in (1, 2) or (k == "y" and r == 4)):
                good = False
    S.assume(not good)
    v, cs = report(S, text, fmt)
    S.check(cs == [NOMATCH], "text the format does not admit is reported")
    S.check_eq(v, t, "and nothing is made up")
    S.cover("reached")


def misnamed(S, p):
    """Month names of no or another language."""
    fmt, texts = S.pick("case", [
        ("ixt:date-day-monthname-de", ["1 maj", "1 dec", "1", "mai"]),
        ("ixt:date-day-monthname-year-en", ["1 jan 2020", "1 01 2020", "1 Jan", "Jan 1 2020", "1 Jan 020"]),
        ("ixt:date-monthname-year-fr", ["fev 2020", "2020 mars", "mars"]),
        ("ixt:date-monthname-day-en", ["1 May", "May", "May 1 2020"]),
        ("ixt:date-day-monthname-year-hi", ["1 March 2020", "1 मार्च 202"]),
        ("ixt:date-jpn-era-year-month", ["平成31年", "2019年5月", "平成31年5"]),
        ("ixt:date-ind-day-monthname-year-hi", ["1 Foo 1941", "1 Chaitra 194"]),
        ("ixt:date-day-monthroman", ["1 L", "1 1", "X 1"]),
    ])
    text = S.pick("text", texts)
    v, cs = report(S, text, fmt)
    S.check(cs == [NOMATCH], "text the format does not admit is reported")
    S.check(v == text, "and nothing is made up")
    S.cover("reached")


ERAS = {"明治": (1868, (1868, 10, 23), (1912, 7, 29)), "大正": (1912, (1912, 7, 30), (1926, 12, 24)), "昭和": (1926, (1926, 12, 25), (1989, 1, 7)), "平成": (1989, (1989, 1, 8), (2019, 4, 30)), "令和": (2019, (2019, 5, 1), (9999, 12, 31))}


def japanese(S, p):
    era = p["era"]
    start, first, last = ERAS[era]
    full = p["full"]
    year = "元" if p["yy"] == 0 else S.str("year", DIG, p["yy"])
    mon = S.pick("mon", ["1", "02", "4", "5", "7", "08", "10", "11", "12"])
    day = S.str("day", DIG, 2) if full else None
    short = S.pick("short", [era, era[0]])
    sp = S.pick("sp", ["", " ", "\u3000"]) if p.get("sp") else ""
    text = short + sp + year + sp + "年" + mon + sp + "月" + (day + sp + "日" if full else "")
    if sp == "\u3000" or S.any_of(False):
        S.assume(False)
    v, cs = report(S, text, "ixt:date-jpn-era-year-month" + ("-day" if full else ""))
    y = start - 1 + (1 if p["yy"] == 0 else int(year))
    m = int(mon)
    exists = True
    if full:
        d = int(day)
        exists = d >= 1 and d <= month_days(y, m)
        number = y * 10000 + m * 100 + d
        within = number >= first[0] * 10000 + first[1] * 100 + first[2] and number <= last[0] * 10000 + last[1] * 100 + last[2]
    else:
        number = y * 100 + m
        within = number >= first[0] * 100 + first[1] and number <= last[0] * 100 + last[1]
    S.check((INVALID in cs) == (not exists), "a date that does not exist is reported")
    if exists:
        S.check((cs == ["INVALID_JAPANESE_IMPERIAL_DATE"]) == (not within), "a date outside of its era is reported")
    if exists and within:
        S.check(cs == [], "no error for a date that exists")
        S.check_eq(v, str(y) + "-" + two(mon) + ("-" + day if full else ""), "the date in the Gregorian calendar")
        S.cover("valid")
    else:
        S.check(len(cs) >= 1, "a date that does not exist is reported")
        S.cover("invalid")


# Gregorian first days of the Indian months, in years that are not leap years
SAKA = [(3, 22), (4, 21), (5, 22), (6, 22), (7, 23), (8, 23), (9, 23), (10, 23), (11, 22), (12, 22), (1, 21), (2, 20)]
SAKANAMES = [["Chaitra", "Caitra", "चैत्र"], ["Vaishakha", "वैशाख", "बैसाख"], ["Jyeshtha", "ज्येष्ठ"], ["Ashadha", "Āṣāḍha", "आषाढ"], ["Shravana", "Śrāvaṇa", "श्रावण", "सावन"], ["Bhadrapada", "Bhādrapada", "Proṣṭhapada", "भाद्रपद", "भादो"], ["Ashwin", "Āśvina", "आश्विन"], ["Kartika", "Kārtika", "कार्तिक"], ["Margashirsha", "Mārgaśirṣa", "Agrahayana", "मार्गशीर्ष", "अगहन"], ["Pausha", "Pauṣa", "पौष"], ["Magha", "Māgha", "माघ"], ["Phalguna", "Phālguna", "फाल्गुन"]]


def indian(S, p):
    """The Indian national calendar."""
    fmt = S.pick("fmt", ["ixt:date-ind-day-monthname-year-hi", "ixt:calindaymonthyear"])
    m = S.pick("m", list(range(12)))
    name = S.pick("name", SAKANAMES[m]) if p["names"] else SAKANAMES[m][0]
    year = S.pick("year", p["years"])
    day = S.str("day", DIG, p["dd"])
    v, cs = report(S, day + " " + name + " " + year, fmt)
    y = int(year)
    if len(year) == 2:
        y = 1900 + y
    greg = y + 78
    leap = month_days(greg, 2) == 29
    d = int(day)
    length = 30 if m >= 6 or (m == 0 and not leap) else 31
    if d < 1 or d > length:
        S.check(len(cs) >= 1, "a date that does not exist is reported")
        S.check_eq(v, day + " " + name + " " + year, "and nothing is made up")
        S.cover("invalid")
        return
    gm, gd = SAKA[m]
    if m == 0 and leap:
        gd = 21
    gy = greg if m < 10 else greg + 1
    gd = gd + d - 1
    n = month_days(gy, gm)
    if gd > n:
        gd = gd - n
        gm = gm + 1
        if gm > 12:
            gm = 1
            gy = gy + 1
    if len(year) == 2 and gy < 2000:
        gy = gy + 100
    S.check(cs == [], "no error for a date that exists")
    a, rest = v[:8], v[8:]
    S.check_eq(a, "%04d-%02d-" % (gy, gm), "the month in the Gregorian calendar")
    S.check(len(rest) == 2 and int(rest) == gd, "the day in the Gregorian calendar")
    S.cover("valid")


def legacy(S, p):
    """The names of earlier registries."""
    name = S.pick("fmt", sorted(LEGACY))
    order, lang = LEGACY[name]
    m = S.pick("m", [1, 9, 12])
    if lang is None:
        mon = two(str(m))
    elif lang == "hi":
        mon = ABBR["hi"].split()[m - 1]
    else:
        mon = (ABBR if S.pick("short", [True, False]) else FULL)[lang].split()[m - 1]
        mon = mon[0].upper() + mon[1:]
    text, day, year = written(S, order, mon, (" ", " "), 2, 4)
    judge(S, text, "ixt:" + name, order, day, m, year)


FIXED = {
    "fixed-true": "true", "booleantrue": "true", "fixed-false": "false", "booleanfalse": "false", "fixed-empty": "", "nocontent": "",
}


def fixed(S, p):
    """Formats that stand for one value whatever the text."""
    name = S.pick("fmt", sorted(FIXED))
    text = S.str("text", "txX0 \u2612-\n", p["n"])
    v, cs = report(S, text, "ixt:" + name)
    S.check(cs == [], "no error")
    S.check(v == FIXED[name], "the fixed value")
    S.cover("reached")


def unknown(S, p):
    """Formats that are no text formats are reported and leave the text."""
    name = S.pick("fmt", ["ixt:fixed", "ixt:fixed-zero", "ixt:num-dot-decimal", "ixt:numcomma", "ixt:zerodash", "ixt:date-day", "ixt:date-day-monthname", "ixt:date-day-monthname-xx", "ixt:date", "ixt:true", "ex:fixed-true", "fixed-true", "ixt:datemonthyearjp"])
    text = S.str("text", "12 a.", p["n"])
    v, cs = report(S, text, name)
    S.check(len(cs) == 1 and cs[0].startswith("UNSUPPORTED_"), "an unknown format is reported")
    S.check(v == text or v == text.strip(), "the text is left alone")
    S.cover("reached")


LANGS = sorted(ABBR)
HARNESSES = [
    Harness(
        names,
        quick=[dict(lang=l, full=f, dd=2, yy=4, seps=[" " if f else ". "], _split={"name": 2}) for l in LANGS for f in (False, True)],
        thorough=[dict(lang=l, full=f, dd=dd, yy=yy, seps=[" ", ". "], _split={"name": 3}) for l in LANGS for f in (False, True) for dd, yy in ((2, 4), (1, 2), (2, 2)) if not (l == "hi" and yy == 1)],
        covers=["valid", "invalid"],
        bounds="25 languages with every order they have, all abbreviated names of the registry in lower, upper and title case and all names in full, all two digit days and four digit years (thorough: also one digit days, two digit years)",
        split={},
    ),
    Harness(
        numeric,
        quick=[dict(fmt=f, dd=2, mm=2, yy=4) for f in NUMERIC] + [dict(fmt=f, dd=1, mm=1, yy=2) for f in NUMERIC],
        thorough=[dict(fmt=f, dd=dd, mm=mm, yy=yy) for f in NUMERIC for dd in (1, 2) for mm in (1, 2) for yy in (1, 2, 4)],
        covers=["valid", "invalid"],
        bounds="all days and months of 1-2 digits and years of 1, 2 and 4 digits, any separators",
    ),
    Harness(digits, quick=[dict(fmt=f, mix=True) for f in OTHER], covers=["valid"], bounds="3 months, 4 days and 3 years in ASCII, Devanagari and full width digits, also mixed"),
    Harness(roman, quick=[dict(dd=2, yy=4)], thorough=[dict(dd=dd, yy=yy) for dd in (1, 2) for yy in (1, 2, 4)], covers=["valid", "invalid"], bounds="12 roman months in both cases and 4 other numerals"),
    Harness(
        rejected,
        quick=[dict(fmt=f, n=n) for f in NUMERIC for n in (2, 4, 5)],
        thorough=[dict(fmt=f, n=n) for f in NUMERIC for n in (1, 2, 3, 4, 5, 6, 7, 8)],
        covers=["reached"],
        bounds="texts of up to 5 (8) characters over digits, separators and letters",
    ),
    Harness(misnamed, covers=["reached"], bounds="28 texts of 8 formats that are no dates of them"),
    Harness(
        japanese,
        quick=[dict(era=e, full=f, yy=2) for e in ERAS for f in (True, False)] + [dict(era="令和", full=True, yy=0), dict(era="平成", full=False, yy=1)],
        thorough=[dict(era=e, full=f, yy=yy, sp=True) for e in ERAS for f in (True, False) for yy in (0, 1, 2)],
        covers=["valid", "invalid"],
        bounds="all five eras, all years of two digits (thorough: 1, 2 and the first year), nine months, all days",
    ),
    Harness(
        indian,
        quick=[dict(dd=2, names=False, years=[y], _split={"m": 4}) for y in ("1941", "42")] + [dict(dd=1, names=True, years=["1921"])],
        thorough=[dict(dd=2, names=True, years=[y], _split={"m": 6}) for y in ("1941", "1942", "41", "42", "99", "00", "21", "1822", "1922", "2022")],
        covers=["valid"],
        bounds="all twelve months, all two digit days, 3 (10) years around leap years and centuries",
    ),
    Harness(legacy, quick=[{}], covers=["valid", "invalid"], bounds="37 legacy names, 3 months, all two digit days and four digit years", split={"fmt": 4}),
    Harness(fixed, quick=[dict(n=0), dict(n=2)], thorough=[dict(n=n) for n in (0, 1, 2, 4)], covers=["reached"], bounds="six names, texts of up to 2 (4) characters"),
    Harness(unknown, quick=[dict(n=2)], thorough=[dict(n=n) for n in (1, 2, 3)], covers=["reached"], bounds="13 names, texts of 2 (3) characters"),
]
ASSUMPTIONS = [
    "the transformation prefix is spelled 'ixt' as the code requires",
    "an era ends on the day before the next begins; years of one or two digits lie in 2000-2099, as the code documents",
]
