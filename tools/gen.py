#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below (run by hand after editing)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []
LEVEL_NOTE = (
    "Bounded symbolic execution of the real, current source of brel: every feasible path of the code on the "
    "symbolic inputs is explored, branches and assertions are decided by z3, every counterexample and a sample of "
    "the passing paths are replayed on the uninstrumented code. Bounds: %s"
)


def prop(id, title, statement, over, text, why, files, mech, bounds, observe=None, claimed=True, how=""):
    PROPS.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier=dict(over=over, text=text),
            why_tests_cant=why,
            anchors=dict(
                files=files,
                mechanism=[dict(name=n, where=w) for n, w in mech],
                observe_at=observe or [],
                hook_needed=None,
            ),
            _bounds=bounds,
            _claimed=claimed,
            _how=how,
        )
    )


def load():
    import importlib.util

    p = os.path.join(ROOT, "tools", "props.py")
    src = open(p).read()
    exec(compile(src, p, "exec"), dict(prop=prop, NA=NA))


def main():
    load()
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
    checks = []
    for p in PROPS:
        if not p["_claimed"]:
            continue
        checks.append(
            dict(
                property=p["id"],
                quick_cmd="./check.py %s quick" % p["id"],
                thorough_cmd="./check.py %s thorough" % p["id"],
                evidence_file="evidence/%s.json" % p["id"],
                technique="bounded symbolic execution of the real Python source with z3 (all inputs within bounds)",
                level="model_checking",
                level_note=LEVEL_NOTE % p["_bounds"],
            )
        )
    m = dict(
        version=1,
        setup_cmd="/opt/venv/bin/python -c 'import brel' && /opt/venv/bin/python tools/selfcheck.py",
        checks=checks,
        not_applicable=NA,
        notes="Known findings and repairs: known_findings.txt.  Engine: sx/, harnesses: harness/.",
    )
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    design()


def harness_text(pid):
    """Docstrings, bounds and assumptions of a harness, without importing it."""
    import ast

    p = os.path.join(ROOT, "harness", pid.lower() + ".py")
    t = ast.parse(open(p).read())
    docs = {n.name: ast.get_docstring(n) or "" for n in t.body if isinstance(n, ast.FunctionDef)}
    out = []
    assume = []
    for n in t.body:
        if isinstance(n, ast.Assign) and ast.unparse(n.targets[0]) == "HARNESSES":
            for c in n.value.elts:
                kw = {k.arg: k.value for k in c.keywords}
                name = c.args[0].id
                title = ast.literal_eval(c.args[1]) if len(c.args) > 1 else name
                out.append("  * `%s`: %s Bounds: %s." % (title, docs.get(name, "").replace("\n", " "), ast.literal_eval(kw["bounds"]) if "bounds" in kw else "-"))
        if isinstance(n, ast.Assign) and ast.unparse(n.targets[0]) == "ASSUMPTIONS":
            assume = ast.literal_eval(n.value)
    return out, assume


def design():
    fixed = {}
    for l in open(os.path.join(ROOT, "known_findings.txt")):
        if l.startswith(("fixed:", "finding:")):
            pid = l.split("property=")[1].split()[0]
            fixed.setdefault(pid, []).append(l.split("property=%s " % pid)[0] + l.split("property=%s " % pid)[1].strip())
    o = open(os.path.join(ROOT, "tools", "design_head.md")).read().rstrip() + "\n\n"
    for p in PROPS:
        o += "### %s: %s\n\n" % (p["id"], p["title"])
        if p["_how"]:
            o += p["_how"] + "\n\n"
        hs, assume = harness_text(p["id"])
        o += "* Encoded code: " + "; ".join("%s (`%s`)" % (m["name"], m["where"]) for m in p["anchors"]["mechanism"]) + ".\n"
        o += "* Harnesses (`harness/%s.py`):\n" % p["id"].lower() + "\n".join(hs) + "\n"
        o += "* Bounds as claimed: %s.\n" % p["_bounds"]
        if assume:
            o += "* Assumed: " + "; ".join(assume) + ".\n"
        for x in fixed.pop(p["id"], []):
            o += "* Defect, " + x + "\n"
        o += "\n"
    if fixed:
        o += "### Defects repaired that no claimed property covers yet\n\n"
        for k in sorted(fixed):
            for x in fixed[k]:
                o += "* %s, %s\n" % (k, x)
        o += "\n"
    o += "## Not applicable\n\n"
    for n in NA:
        o += "* **%s**: %s\n" % (n.get("property", n.get("id")), n["reason"])
    o += "\n## Planted bugs\n\nEach was written from the text of the property and the code, kept whether or not it was caught at first; `tools/plant.py --recheck` runs the quick check of its property against it.\n\n| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n"
    sd = os.path.join(ROOT, "seeded")
    caught = json.load(open(os.path.join(ROOT, "tools", "caught.json"))) if os.path.exists(os.path.join(ROOT, "tools", "caught.json")) else {}
    for b in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, b, "meta.json")))
        o += "| %s | %s | %s | %s | %s |\n" % (b, m["property"], m["what_it_breaks"], m["needs"], caught.get(b, "?"))
    open(os.path.join(ROOT, "DESIGN.md"), "w").write(o)


main()
