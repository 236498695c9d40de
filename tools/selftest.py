"""setup_cmd: the tools the checks need are present and the package encodes."""
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, V)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402
from engine import run  # noqa: E402

x = z3.Real("x")
s = z3.Solver()
s.add(x * x < 0)
assert s.check() == z3.unsat
run.package()
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
print("setup ok: z3", z3.get_version_string())
