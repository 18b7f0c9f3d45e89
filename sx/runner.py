"""Explore harnesses symbolically, replay what the solver finds, write evidence."""
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import random
import shutil
import socket
import subprocess
import sys
import tempfile
import time
import traceback

from . import env, state

PY = "/opt/venv/bin/python"


class Client:
    def __init__(self, path):
        self.s = socket.socket(socket.AF_UNIX)
        self.s.connect(path)
        self.f = self.s.makefile("rw", encoding="utf-8", errors="surrogatepass")

    def ask(self, harness, param, values, timeout=60, confirm=False):
        self.f.write(
            json.dumps(dict(harness=harness, param=param, values=values, timeout=timeout, confirm=confirm)) + "\n"
        )
        self.f.flush()
        line = self.f.readline()
        if not line:
            raise RuntimeError("native server died")
        return json.loads(line)


def _profile_functions(seen):
    repo = env.REPO + "/brel"

    def prof(frame, event, arg):
        if event == "call":
            co = frame.f_code
            if co.co_filename.startswith(repo):
                seen.add((co.co_filename[len(env.REPO) + 1 :], co.co_qualname))

    return prof


def run_task(modname, hname, param, sockpath, deadline, seed):
    from . import core, ops
    from .core import CTX, Engine, Inconclusive, PathAbort, Violation
    from .symapi import Sym, eval_under

    mod = sys.modules[modname]
    h = next(h for h in mod.HARNESSES if h.name == hname)
    eng = Engine(deadline=deadline)
    CTX.engine = eng
    client = Client(sockpath)
    t0 = time.time()
    out = dict(
        harness=hname, param=param, status="ok", paths=0, validated=0, functions=[], samples=[],
        mismatches=[], inconclusive=None, violation=None,
    )
    seen = set()
    devnull = io.StringIO()
    real_out = sys.stdout
    rng = random.Random(seed)
    path_i = 0
    try:
        while True:
            state.restore()
            eng.begin_path()
            CTX.inconclusive = None
            viol = None
            aborted = False
            if path_i < 3:
                sys.setprofile(_profile_functions(seen))
            sys.stdout = devnull
            try:
                h.fn(Sym(eng, param.get("_pin")), param)
            except PathAbort:
                aborted = True
            except Violation as v:
                viol = v
            except Inconclusive as e:
                raise
            except RecursionError as e:
                viol = _exc_violation(eng, e)
            except Exception as e:
                viol = _exc_violation(eng, e)
            finally:
                sys.setprofile(None)
                sys.stdout = real_out
                devnull.seek(0)
                devnull.truncate()
            if CTX.inconclusive is not None:
                raise Inconclusive(CTX.inconclusive)
            path_i += 1
            if aborted:
                eng.stats["aborted"] += 1
            else:
                eng.stats["paths"] += 1
            if viol is not None:
                r = client.ask(hname, param, viol.values, confirm=True)
                if r["status"] in ("fail", "exc"):
                    out["violation"] = dict(
                        property=mod.PROPERTY, harness=hname, param=param, values=viol.values,
                        label=viol.label, native_label=r["label"], native_detail=r.get("detail", ""),
                    )
                    out["status"] = "violation"
                    break
                out["status"] = "error"
                out["mismatches"].append(
                    dict(values=viol.values, label=viol.label, native=r, detail=viol.detail)
                )
                break
            if not aborted and (eng.stats["paths"] <= 12 or eng.stats["paths"] % 40 == 0):
                if eng.model is None and not eng._check():
                    pass
                else:
                    if eng.model is None:
                        eng.model = eng.solver.model()
                    m = eng.model
                    vals = eng.values_from(m)
                    exp = [[l, eval_under(v, m)] for l, v in eng.observed]
                    r = client.ask(hname, param, vals)
                    if r["status"] in ("fail", "exc"):
                        # the real code violates the property on this input
                        out["violation"] = dict(
                            property=mod.PROPERTY, harness=hname, param=param, values=vals,
                            label=r["label"], native_label=r["label"], native_detail=r.get("detail", ""),
                        )
                        out["status"] = "violation"
                        break
                    exp_j = json.loads(json.dumps(exp))
                    if r["status"] != "ok" or r["observed"] != exp_j:
                        out["status"] = "error"
                        out["mismatches"].append(dict(values=vals, expected=exp_j, native=r))
                        break
                    out["validated"] += 1
                    if len(out["samples"]) < 2:
                        out["samples"].append(dict(harness=hname, param=param, values=vals))
            if not eng.next_path():
                break
            if eng.stats["paths"] > eng.max_paths:
                raise Inconclusive("path limit reached")
    except Inconclusive as e:
        out["status"] = "inconclusive"
        out["inconclusive"] = str(e) + "\n" + "".join(traceback.format_tb(e.__traceback__)[-6:])
    except PathAbort:
        pass
    except BaseException as e:
        out["status"] = "error"
        out["inconclusive"] = "engine error: %r\n%s" % (e, "".join(traceback.format_exception(e)[-8:]))
    out["paths"] = eng.stats["paths"]
    out["stats"] = eng.stats
    out["covers"] = eng.covers
    out["functions"] = sorted(seen)
    out["wall"] = time.time() - t0
    return out


def _exc_violation(eng, e):
    from .core import Violation, PathAbort

    if eng.model is None:
        if not eng._check():
            raise PathAbort()
        eng.model = eng.solver.model()
    tb = "".join(traceback.format_exception(e)[-6:])
    return Violation("unexpected %s: %s" % (type(e).__name__, e), eng.values_from(eng.model), tb)


def _worker(args):
    return run_task(*args)


def main(pid, tier, only=None, jobs=None, verbose=False):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    budget = float(os.environ.get("SX_BUDGET", "800"))
    deadline = t0 + budget
    modname = "harness." + pid.lower()
    scratch = tempfile.mkdtemp(prefix="sx-")
    nat = None
    try:
        os.makedirs(scratch + "/home/.brel/dts_cache")
        sock = scratch + "/native.sock"
        e2 = dict(os.environ, PYTHONHASHSEED="0")
        nat = subprocess.Popen(
            [PY, "-W", "ignore", env.VERIF + "/sx/native.py", sock, scratch + "/home", modname],
            env=e2, stdout=subprocess.DEVNULL, stderr=open(scratch + "/native.err", "wb"),
        )
        env.setup(scratch + "/home")
        from . import instr

        instr.install(["brel", "harness"])
        try:
            mod = importlib.import_module(modname)
        except Exception as e:
            print("ERROR: cannot import the code under test or the harness")
            traceback.print_exc()
            return 2, None
        tasks = []
        for h in mod.HARNESSES:
            if only and h.name not in only:
                continue
            for p in (h.quick if tier == "quick" else h.thorough):
                tasks.append((h.weight, (modname, h.name, p, sock, deadline, seed)))
        tasks.sort(key=lambda t: -t[0])
        while not os.path.exists(sock):
            if nat.poll() is not None:
                print("ERROR: native server failed")
                print(open(scratch + "/native.err").read()[-2000:])
                return 2, None
            time.sleep(0.05)
        results = []
        jobs = jobs or int(os.environ.get("SX_JOBS", "8"))
        ctx = mp.get_context("fork")
        with ctx.Pool(min(jobs, len(tasks)), maxtasksperchild=1) as pool:
            for r in pool.imap_unordered(_worker, [t[1] for t in tasks], chunksize=1):
                results.append(r)
                if verbose or r["status"] != "ok":
                    print(
                        "%-28s %-40s %-12s paths=%d queries=%d validated=%d wall=%.1fs"
                        % (r["harness"], json.dumps(r["param"])[:40], r["status"], r["paths"], r["stats"]["queries"], r["validated"], r["wall"]),
                        flush=True,
                    )
                if r["status"] == "violation":
                    pool.terminate()
                    break
        return finish(pid, tier, seed, mod, results, len(tasks), t0)
    finally:
        if nat is not None:
            nat.terminate()
        shutil.rmtree(scratch, ignore_errors=True)


def finish(pid, tier, seed, mod, results, ntasks, t0):
    viols = [r for r in results if r["status"] == "violation"]
    bad = [r for r in results if r["status"] in ("error", "inconclusive")]
    covers = {}
    for r in results:
        for k, v in r["covers"].items():
            covers[r["harness"] + ":" + k] = covers.get(r["harness"] + ":" + k, 0) + v
    missing = []
    by_h = {r["harness"] for r in results}
    for h in mod.HARNESSES:
        if h.name in by_h:
            for c in h.covers:
                if not covers.get(h.name + ":" + c):
                    missing.append(h.name + ":" + c)
    st = {}
    for r in results:
        for k, v in r["stats"].items():
            st[k] = st.get(k, 0) + v
    functions = sorted({"%s:%s" % tuple(f) for r in results for f in r["functions"]})
    samples = []
    for r in results:
        samples.extend(r["samples"][:1])
    if viols:
        samples.append(viols[0]["violation"])
    ev = dict(
        property=pid, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=st.get("paths", 0),
            transitions=st.get("branches", 0),
            traces_validated_against_impl=sum(r["validated"] for r in results),
            samples=samples[:12],
            meaning="states = feasible symbolic paths explored to their end; transitions = symbolic branch decisions; each path stands for all inputs satisfying its path condition",
            exhaustive=not bad and not viols and len(results) == ntasks,
            tasks=ntasks,
            tasks_finished=len(results),
            solver_queries=st.get("queries", 0),
            solver_seconds=round(st.get("solver_s", 0.0), 2),
            assertions_evaluated=st.get("checks", 0),
            assertions_trivially_true=st.get("checks_trivial", 0),
            infeasible_or_assumed_away=st.get("aborted", 0),
            functions_encoded=functions,
            cover_points=covers,
            bounds={h.name: h.bounds for h in mod.HARNESSES if h.name in by_h},
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(time.time() - t0, 2),
        violations=len(viols),
    )
    os.makedirs(env.VERIF + "/evidence", exist_ok=True)
    with open(env.VERIF + "/evidence/%s.json" % pid, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(
        "%s [%s]: tasks=%d paths=%d queries=%d solver=%.1fs validated=%d wall=%.1fs"
        % (pid, tier, ntasks, st.get("paths", 0), st.get("queries", 0), st.get("solver_s", 0), ev["coverage"]["traces_validated_against_impl"], ev["wall_s"])
    )
    if viols:
        v = viols[0]["violation"]
        d = env.VERIF + "/evidence/replays"
        os.makedirs(d, exist_ok=True)
        body = json.dumps(v, indent=1, default=str)
        path = d + "/%s-%s.json" % (pid, hashlib.sha1(body.encode()).hexdigest()[:10])
        with open(path, "w") as f:
            f.write(body)
        print("counterexample: " + json.dumps(v, default=str)[:1500])
        print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
        return 1, ev
    for r in bad[:3]:
        print("INCONCLUSIVE %s %s: %s" % (r["harness"], json.dumps(r["param"]), r["inconclusive"]))
        for m in r["mismatches"]:
            print("  engine/native mismatch: " + json.dumps(m, default=str)[:1800])
    if bad:
        return 2, ev
    if missing:
        print("VACUOUS: cover points never reached: " + ", ".join(missing))
        return 2, ev
    for line in getattr(mod, "KNOWN", []):
        print(line)
    return 0, ev
