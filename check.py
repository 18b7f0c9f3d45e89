#!/usr/bin/env python3
"""check.py PID quick|thorough [harness...]   |   check.py replay FILE"""
import json
import os
import subprocess
import sys

PY = "/opt/venv/bin/python"
here = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("SX_BOOT") != "1":
    e = dict(os.environ, SX_BOOT="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore")
    e.pop("PYTHONPATH", None)
    os.execve(PY, [PY, "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:], e)

sys.path.insert(0, here)
if sys.argv[1] == "replay":
    import tempfile, shutil

    v = json.load(open(sys.argv[2]))
    d = tempfile.mkdtemp(prefix="sx-")
    try:
        r = subprocess.run(
            [PY, "-W", "ignore", here + "/sx/native.py", "-", d, "harness." + v["property"].lower()],
            input=json.dumps(dict(harness=v["harness"], param=v["param"], values=v["values"], confirm=True)),
            text=True, capture_output=True,
        )
        print(r.stdout or r.stderr)
        sys.exit(1 if '"status": "ok"' not in r.stdout else 0)
    finally:
        shutil.rmtree(d, ignore_errors=True)

from sx import runner

tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
rc, _ = runner.main(sys.argv[1], tier, set(sys.argv[3:]) or None, verbose=bool(os.environ.get("SX_VERBOSE")))
sys.stdout.flush()
sys.exit(rc)
