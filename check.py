#!/opt/venv/bin/python
"""check.py C07 [--tier quick|thorough] [--only SUBSTR] | check.py --replay FILE

Runs from /verif against the working tree of /repo."""
import os
import sys
import tempfile

VENV = "/opt/venv/bin/python"
if os.path.realpath(sys.prefix) != "/opt/venv" and os.path.exists(VENV) and os.environ.get("VERIF_REEXEC") != "1":
    os.environ["VERIF_REEXEC"] = "1"
    os.execv(VENV, [VENV, "-B"] + sys.argv)

sys.dont_write_bytecode = True
os.environ["MPLBACKEND"] = "Agg"
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
_mpl = tempfile.mkdtemp(prefix="verif-mpl-")
os.environ["MPLCONFIGDIR"] = _mpl
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("VERIF_SRC", "/repo/python/src"))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")


def _main(argv):
    from engine import run
    if argv and argv[0] == "--replay":
        return run.replay_file(argv[1])
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick") or "quick")
    ap.add_argument("--only", action="append")
    ap.add_argument("--jobs", type=int)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-k", action="store_true", help="keep going after a violation")
    a = ap.parse_args(argv)
    return run.main(a.property, a.tier, a.only, a.jobs, a.v, a.k)


if __name__ == "__main__":
    import shutil
    try:
        rc = _main(sys.argv[1:])
    finally:
        shutil.rmtree(_mpl, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc if isinstance(rc, int) else 2)
