"""Common process environment: everything the code writes stays in a scratch dir."""
import os
import sys
import tempfile
import warnings

REPO = os.environ.get("SX_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYVENV = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def setup(scratch):
    os.environ["HOME"] = scratch
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ["LANG"] = "C.UTF-8"
    os.environ["LC_ALL"] = "C.UTF-8"
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")
    for p in (VERIF, REPO):
        if p in sys.path:
            sys.path.remove(p)
    sys.path.insert(0, VERIF)
    sys.path.insert(0, REPO)
    if PYVENV not in sys.path:
        sys.path.append(PYVENV)
    os.chdir(REPO)
    sys.setrecursionlimit(20000)
