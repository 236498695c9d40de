#!/opt/venv/bin/python
"""Development aid: run a check against small syntactic mutants of a source file (scratch copies under /tmp).

mutate.py C05 python/src/adctoolbox/models/sar.py [--func NAME ...] [--max N] [--jobs 8]
Prints survivors (exit 0) and runs without an answer (exit not 0/1)."""
import argparse
import ast
import copy
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt], ast.Eq: [ast.NotEq],
       ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Div], ast.Mod: [ast.FloorDiv],
       ast.Pow: [ast.Mult], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd]}
NAMES = {"max": "min", "min": "max", "argmax": "argmin", "argmin": "argmax", "floor": "ceil", "ceil": "floor", "sin": "cos", "cos": "sin", "any": "all",
         "all": "any", "round": "floor", "mean": "sum", "sum": "mean", "abs": "negative", "zeros": "ones", "rms": "peak", "real": "imag", "imag": "real"}


def mutants(tree, funcs):
    """yield (description, mutator(node)) for every mutation point, addressed by walk index"""
    out = []
    inside = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef) and (not funcs or n.name in funcs):
            for m in ast.walk(n):
                inside.add(id(m))
            for d in ast.walk(n.args):
                pass
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Raise) or isinstance(n, ast.JoinedStr) or isinstance(n, ast.Call) and getattr(n.func, "attr", getattr(n.func, "id", "")) in (
                "warn", "print", "set_xlabel", "set_ylabel", "set_title", "title", "text", "plot", "legend", "grid", "axhline", "axvline", "set_xlim", "set_ylim", "savefig", "annotate", "xlabel", "ylabel", "semilogx", "bar", "suptitle", "fill_between", "subplots", "figure", "xlim", "ylim", "xticks", "yticks", "set_xticks"):
            for m in ast.walk(n):
                skip.add(id(m))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.add(id(n))
            skip.add(id(n.value))
    for i, n in enumerate(ast.walk(tree)):
        if id(n) not in inside or id(n) in skip:
            continue
        ln = getattr(n, "lineno", 0)
        if isinstance(n, ast.Compare):
            for k, op in enumerate(n.ops):
                for alt in CMP.get(type(op), []):
                    out.append((i, ln, f"cmp {type(op).__name__}->{alt.__name__}", lambda x, k=k, alt=alt: x.ops.__setitem__(k, alt())))
        elif isinstance(n, (ast.BinOp, ast.AugAssign)):
            for alt in BIN.get(type(n.op), []):
                out.append((i, ln, f"bin {type(n.op).__name__}->{alt.__name__}", lambda x, alt=alt: setattr(x, "op", alt())))
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                out.append((i, ln, f"const {n.value}->{not n.value}", lambda x: setattr(x, "value", not x.value)))
            elif isinstance(n.value, int):
                out.append((i, ln, f"const {n.value}->{n.value + 1}", lambda x: setattr(x, "value", x.value + 1)))
                out.append((i, ln, f"const {n.value}->{n.value - 1}", lambda x: setattr(x, "value", x.value - 1)))
            elif isinstance(n.value, float):
                out.append((i, ln, f"const {n.value}->x1.5+0.1", lambda x: setattr(x, "value", x.value * 1.5 + (0.1 if x.value == 0 else 0))))
        elif isinstance(n, ast.BoolOp):
            alt = ast.Or if isinstance(n.op, ast.And) else ast.And
            out.append((i, ln, f"bool->{alt.__name__}", lambda x, alt=alt: setattr(x, "op", alt())))
        elif isinstance(n, ast.Attribute) and n.attr in NAMES:
            out.append((i, ln, f"attr {n.attr}->{NAMES[n.attr]}", lambda x: setattr(x, "attr", NAMES[x.attr])))
        elif isinstance(n, ast.Name) and n.id in NAMES and isinstance(n.ctx, ast.Load):
            out.append((i, ln, f"name {n.id}->{NAMES[n.id]}", lambda x: setattr(x, "id", NAMES[x.id])))
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)) and not isinstance(n, ast.While):
            out.append((i, ln, "if negated", lambda x: setattr(x, "test", ast.UnaryOp(ast.Not(), x.test))))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            out.append((i, ln, "drop minus", lambda x: setattr(x, "op", ast.UAdd())))
        elif isinstance(n, (ast.AugAssign,)):
            pass
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            for a in ("lower", "upper"):
                if getattr(n.slice, a) is not None:
                    out.append((i, ln, f"slice {a}+1", lambda x, a=a: setattr(x.slice, a, ast.BinOp(getattr(x.slice, a), ast.Add(), ast.Constant(1)))))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("file")
    ap.add_argument("--func", action="append")
    ap.add_argument("--max", type=int, default=80)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--timeout", type=int, default=600)
    ap.add_argument("--only", action="append")
    a = ap.parse_args()
    src = os.path.join("/repo", a.file)
    text = open(src).read()
    tree = ast.parse(text)
    ms = mutants(tree, a.func)
    random.Random(a.seed).shuffle(ms)
    total = len(ms)
    ms = ms[:a.max]
    root = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    lines = text.splitlines()

    def one(t):
        n, (i, ln, desc, fn) = t
        d = os.path.join(root, str(n))
        shutil.copytree("/repo/python/src", d, ignore=shutil.ignore_patterns("__pycache__", "examples", "_bundled_skills"))
        tr = copy.deepcopy(tree)
        for j, node in enumerate(ast.walk(tr)):
            if j == i:
                fn(node)
                break
        ast.fix_missing_locations(tr)
        rel = os.path.relpath(src, "/repo/python/src")
        with open(os.path.join(d, rel), "w") as f:
            f.write(ast.unparse(tr))
        env = dict(os.environ, VERIF_SRC=d, VERIF_EVIDENCE=os.path.join(d, "ev"))
        cmd = [os.path.join(V, "check.py"), a.prop, "--jobs", "1"]
        for o in a.only or []:
            cmd += ["--only", o]
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, env=env, timeout=a.timeout)
            rc, out = r.returncode, r.stdout + r.stderr
        except subprocess.TimeoutExpired:
            rc, out = 99, "timeout"
        shutil.rmtree(d, ignore_errors=True)
        return rc, ln, desc, out
    cnt = {}
    with ThreadPoolExecutor(a.jobs) as ex:
        for rc, ln, desc, out in ex.map(one, enumerate(ms)):
            cnt[rc] = cnt.get(rc, 0) + 1
            if rc != 1:
                why = "" if rc == 0 else " | " + " ".join(x for x in out.splitlines() if "INCONC" in x or "Error" in x or "timeout" in x)[:220]
                print(f"rc={rc} L{ln} {desc}: {lines[ln - 1].strip()[:110]}{why}", flush=True)
    shutil.rmtree(root, ignore_errors=True)
    print("summary", cnt, "of", total, "points")


main()
