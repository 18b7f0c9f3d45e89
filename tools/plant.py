#!/usr/bin/env python3
"""Development helper: turn a scripted edit into a seeded bug and confirm it.

plant.py ID PROPERTY SPEC.py     SPEC defines EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (python text)
plant.py --recheck [ID...]       apply each patch to /repo, run quick check, undo, report
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
SH = '#!/bin/bash\n# exit 0: behaviour intact; non-zero: broken\nT=$(mktemp -d)\nHOME="$T" PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" timeout 250 /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"\nrc=$?\nrm -rf "$T"\nexit $rc\n'


PRELUDE = """
from lxml import etree
from brel import Filing, QName
from brel.contexts.filing_context import FilingContext
from brel.parsers.xml_filing_parser import XMLFilingParser
from brel.parsers.xhtml_filing_parser import XHTMLFilingParser

NS = ('xmlns:xbrli="http://www.xbrl.org/2003/instance" xmlns:link="http://www.xbrl.org/2003/linkbase" xmlns:xlink="http://www.w3.org/1999/xlink" '
      'xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xmlns:xbrldi="http://xbrl.org/2006/xbrldi" '
      'xmlns:xbrldt="http://xbrl.org/2005/xbrldt" xmlns:iso4217="http://www.xbrl.org/2003/iso4217" xmlns:ex="http://example.com/ex" xmlns:ey="http://example.com/ey" '
      'xmlns:ix="http://www.xbrl.org/2013/inlineXBRL" xmlns:ixt="http://www.xbrl.org/inlineXBRL/transformation/2020-02-12"')


def context(docs):
    ctx = FilingContext()
    for i, d in enumerate(docs):
        ctx.get_xml_repository().add_etree("d%d.xml" % i, etree.ElementTree(etree.fromstring(d)))
    return ctx


def open_xml(*docs):
    return Filing(XMLFilingParser(context(docs)).parse())


def open_xhtml(*docs):
    return Filing(XHTMLFilingParser(context(docs)).parse())


def schema(body, ns="http://example.com/ex"):
    return "<xs:schema %s targetNamespace='%s'>%s</xs:schema>" % (NS, ns, body)


def concept(name, type="xbrli:monetaryItemType", extra="", sg="xbrli:item", prefix="ex"):
    return "<xs:element id='%s_%s' name='%s' type='%s' substitutionGroup='%s' xbrli:periodType='instant' nillable='true' %s/>" % (prefix, name, name, type, sg, extra)


def ctx(id="c1", period="<xbrli:instant>2020-12-31</xbrli:instant>", seg="", ident="e1", scen=""):
    return "<xbrli:context id='%s'><xbrli:entity><xbrli:identifier scheme='http://s'>%s</xbrli:identifier>%s</xbrli:entity><xbrli:period>%s</xbrli:period>%s</xbrli:context>" % (id, ident, seg and "<xbrli:segment>%s</xbrli:segment>" % seg, period, scen and "<xbrli:scenario>%s</xbrli:scenario>" % scen)


def unit(id="u1", m="<xbrli:measure>iso4217:USD</xbrli:measure>"):
    return "<xbrli:unit id='%s'>%s</xbrli:unit>" % (id, m)


def instance(body):
    return "<xbrli:xbrl %s>%s</xbrli:xbrl>" % (NS, body)


def inline(body, resources, hidden=""):
    return "<html xmlns='http://www.w3.org/1999/xhtml' %s><head/><body><div><ix:header>%s<ix:references><link:schemaRef xlink:type='simple' xlink:href='d0.xml'/></ix:references><ix:resources>%s</ix:resources></ix:header></div>%s</body></html>" % (NS, hidden and "<ix:hidden>%s</ix:hidden>" % hidden, resources, body)


"""


def run(*a, cwd=None, **k):
    return subprocess.run(a, cwd=cwd, capture_output=True, text=True, **k)


def passed(cwd_repo):
    # the stable tests always run against /repo
    o = tempfile.mktemp()
    run("bash", "/opt/vp/test.sh", o)
    d = json.load(open(o))
    os.remove(o)
    b = json.load(open("/opt/vp/BASELINE.json"))
    f = lambda d: set(next(d[k] for k in ("passed", "pass", "stable", "tests") if k in d))
    return not (f(b) - f(d))


def check(prop):
    r = run("./check.py", prop, "quick", cwd=V, timeout=900)
    return r.returncode, [l for l in r.stdout.splitlines() if l.startswith("VIOLATION") or l.startswith("counterexample")]


def plant(bid, prop, spec):
    ns = {"PRELUDE": PRELUDE}
    exec(open(spec).read(), ns)
    assert not run("git", "-C", R, "status", "--porcelain").stdout, "repo dirty"
    d = os.path.join(V, "seeded", bid)
    os.makedirs(d, exist_ok=True)
    demo = os.path.join(d, "demo.sh")
    open(demo, "w").write(SH)
    os.chmod(demo, 0o755)
    open(os.path.join(d, "demo.py"), "w").write(ns["DEMO"].lstrip())
    json.dump({"property": prop, "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    clean = run("bash", demo, cwd=R)
    ok = True
    if clean.returncode:
        print(bid, "DEMO FAILS ON CLEAN", clean.stdout[-500:], clean.stderr[-800:])
        return
    try:
        for f, old, new in ns["EDITS"]:
            p = os.path.join(R, f)
            s = open(p).read()
            assert s.count(old) == 1, (bid, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        open(os.path.join(d, "patch.diff"), "w").write(run("git", "-C", R, "diff").stdout)
        t = passed(R)
        bad = run("bash", demo, cwd=R)
        rc, lines = check(prop)
        print(bid, prop, "tests", "ok" if t else "BROKEN", "demo", bad.returncode, "check", rc, lines[-1:] if rc == 1 else "")
        if bad.returncode == 0:
            print("  DEMO DOES NOT FAIL")
        if not orig_lines(os.path.join(d, "patch.diff")):
            print("  (touches no line of the base commit)")
    finally:
        run("git", "-C", R, "checkout", "--", ".")


def orig_lines(patch):
    base = run("git", "-C", R, "rev-list", "--max-parents=0", "HEAD").stdout.split()[0]
    f = None
    ok = True
    for l in open(patch):
        if l.startswith("--- a/"):
            f = l[6:].strip()
            r = run("git", "-C", R, "show", base + ":" + f)
            lines = set(r.stdout.splitlines())
        elif l.startswith("-") and not l.startswith("---"):
            if l[1:].rstrip("\n") not in lines:
                ok = False
    return ok


def recheck(ids):
    assert not run("git", "-C", R, "status", "--porcelain").stdout, "repo dirty"
    for bid in ids or sorted(os.listdir(os.path.join(V, "seeded"))):
        d = os.path.join(V, "seeded", bid)
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        c0 = run("bash", os.path.join(d, "demo.sh"), cwd=R).returncode
        a = run("git", "-C", R, "apply", os.path.join(d, "patch.diff"))
        try:
            if a.returncode:
                print(bid, "PATCH DOES NOT APPLY")
                continue
            c1 = run("bash", os.path.join(d, "demo.sh"), cwd=R).returncode
            rc, lines = check(prop)
            print(bid, prop, "demo %d->%d" % (c0, c1), "check", rc, "caught" if rc == 1 else "MISSED", "" if orig_lines(os.path.join(d, "patch.diff")) else "(not base lines)", flush=True)
        finally:
            run("git", "-C", R, "checkout", "--", ".")


if sys.argv[1] == "--recheck":
    recheck(sys.argv[2:])
else:
    plant(*sys.argv[1:4])
