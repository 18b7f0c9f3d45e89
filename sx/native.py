"""Server that runs harnesses concretely on the uninstrumented code.

usage: native.py SOCKET SCRATCH MODULE
Forks one child per connection; JSON lines in, JSON lines out.
"""
import importlib
import io
import json
import os
import signal
import socket
import sys
import contextlib

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sx import env, state


def run(mod, req):
    from sx.api import AssertFailed, Native, Skip

    h = next(h for h in mod.HARNESSES if h.name == req["harness"])
    S = Native(req["values"])
    S.confirm = bool(req.get("confirm"))
    res = {}

    def onalarm(*_):
        raise AssertFailed("native run did not terminate within its time limit")

    state.restore()
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(int(req.get("timeout", 60)))
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            h.fn(S, req["param"])
        res["status"] = "ok"
    except AssertFailed as e:
        res.update(status="fail", label=e.label, detail=e.detail)
    except Skip:
        res["status"] = "skip"
    except RecursionError as e:
        res.update(status="exc", label="RecursionError", detail=str(e))
    except Exception as e:
        import traceback

        res.update(
            status="exc",
            label="%s: %s" % (type(e).__name__, e),
            detail="".join(traceback.format_exception(e)[-4:]),
        )
    finally:
        signal.alarm(0)
    res["observed"] = S.observed
    return res


def main():
    path, scratch, modname = sys.argv[1:4]
    env.setup(scratch)
    mod = importlib.import_module(modname)
    if path == "-":
        req = json.load(sys.stdin)
        print(json.dumps(run(mod, req)))
        return
    srv = socket.socket(socket.AF_UNIX)
    srv.bind(path)
    srv.listen(64)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    while True:
        c, _ = srv.accept()
        if os.fork() == 0:
            srv.close()
            signal.signal(signal.SIGCHLD, signal.SIG_DFL)
            f = c.makefile("rw", encoding="utf-8", errors="surrogatepass")
            for line in f:
                req = json.loads(line)
                f.write(json.dumps(run(mod, req)) + "\n")
                f.flush()
            os._exit(0)
        c.close()


if __name__ == "__main__":
    main()
