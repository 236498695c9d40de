"""Runs the scenarios of one property: exploration, replay, evidence."""
import importlib
import json
import math
import multiprocessing as mp
import os
import re
import random
import resource
import subprocess
import sys
import time
import traceback
import warnings
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction

import numpy as np
import z3

from . import core, loader, npshim, scen
from .core import CheckFailed, Inconclusive, PathAbort, Unsupported

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class Scenario:
    def __init__(self, name, fn, tier="quick", max_paths=3000, budget=300, validate=2, timeout_ms=20000,
                 overrides=None, sample=None, expect_labels=None, **cfg):
        self.name = name
        self.fn = fn
        self.tier = tier
        self.cfg = cfg
        self.max_paths = max_paths
        self.budget = budget
        self.validate = validate
        self.timeout_ms = timeout_ms
        self.overrides = overrides
        self.sample = sample
        self.expect_labels = expect_labels


# ---- coverage of package functions (sys.monitoring is cheap)

class FuncCov:
    TOOL = 3

    def __init__(self):
        self.seen = set()

    def __enter__(self):
        m = sys.monitoring
        try:
            m.use_tool_id(self.TOOL, "verif")
        except ValueError:
            return self
        src = loader.SRC

        def start(code, off):
            f = code.co_filename
            if f.startswith(src) and not code.co_name.startswith("<"):
                self.seen.add(os.path.relpath(f, src) + ":" + code.co_qualname)
            return m.DISABLE
        m.register_callback(self.TOOL, m.events.PY_START, start)
        m.set_events(self.TOOL, m.events.PY_START)
        m.restart_events()
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        try:
            m.set_events(self.TOOL, 0)
            m.free_tool_id(self.TOOL)
        except ValueError:
            pass
        return False


_PKG = None


def package():
    global _PKG
    if _PKG is None:
        _PKG = loader.Package()
        _PKG.load("adctoolbox")
    return _PKG


def sym_package(sc):
    if sc.overrides:
        ov = sc.overrides() if callable(sc.overrides) else sc.overrides
        return loader.Package(overrides=ov)
    return package()


def run_one(sc, pkg, prefix, stats, guided=None):
    ctx = core.Ctx(prefix=prefix, guided=guided, stats=stats, timeout_ms=sc.timeout_ms)
    core.CTX = ctx
    s = scen.SymS(ctx, pkg)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sc.fn(s, **sc.cfg)
    return ctx, s


def path_model(ctx, timeout=None):
    vs = frozenset(a.i for _, a in ctx.inputs)
    r, m = ctx.solve([core.SymBool(z3.BoolVal(True), vs)], want_model=True, timeout=timeout)
    if r != "sat":
        return r, None
    return r, {n: core._model_frac(m.eval(a.zv, model_completion=True)) for n, a in ctx.inputs}


def explore(sc):
    """all paths of one scenario; returns a result dict"""
    t0 = time.time()
    stats = {"_seed": SEED}
    res = {"scenario": sc.name, "status": "held", "paths": 0, "aborted": 0, "violations": [], "labels": set(),
           "samples": [], "validated": 0, "errors": []}
    try:
        pkg = sym_package(sc)
    except Exception:
        res["status"] = "inconclusive"
        res["errors"].append("package does not load: " + traceback.format_exc(limit=3))
        return _finish(res, stats, t0)
    work = [[]]
    input_specs = {}
    first_models = []
    reach = skip = 0
    cov = FuncCov()
    with cov:
        while work:
            prefix = work.pop()
            if time.time() - t0 > sc.budget or res["paths"] + res["aborted"] > sc.max_paths:
                res["status"] = "inconclusive"
                res["errors"].append(f"bound on exploration reached after {res['paths']} paths")
                break
            ctx = None
            try:
                ctx = core.Ctx(prefix=prefix, stats=stats, timeout_ms=sc.timeout_ms)
                core.CTX = ctx
                s = scen.SymS(ctx, pkg)
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    sc.fn(s, **sc.cfg)
                res["paths"] += 1
                res["labels"] |= s.labels
                if len(first_models) < 3 or reach == 0:
                    r, m = path_model(ctx, 3000 if skip < 2 else 300)       # reachability twin of the path
                    skip += r not in ("sat", "unsat")
                    if r == "sat":
                        reach += 1
                        first_models.append(m)
                    elif r == "unsat":
                        res["aborted"] += 1
                        res["paths"] -= 1
            except PathAbort:
                res["aborted"] += 1
            except CheckFailed:
                label, cands = s.cex
                res["labels"] |= s.labels
                # further inputs to try should the model not replay (abstracted primitives)
                rs = random.Random(SEED * 31 + len(res["violations"]))
                sp = {n: (a.lo, a.hi, a.isint) for n, a in ctx.inputs}
                cands = cands + [sample_assignment(rs, sp, sc) for _ in range(4)]
                res["violations"].append({"label": label, "candidates": cands, "kind": "claim"})
                if len(res["violations"]) >= 4:
                    work = []
            except Inconclusive as e:
                res["status"] = "inconclusive"
                res["errors"].append(f"inconclusive: {e}")
                if len(res["errors"]) > 5:
                    break
            except Unsupported as e:
                res["status"] = "inconclusive"
                tb = traceback.extract_tb(e.__traceback__)
                where = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb if f.filename.startswith(loader.SRC)]
                res["errors"].append(f"not encodable: {e} at {where[-1:]}")
                if len(res["errors"]) > 3:
                    break
            except z3.Z3Exception as e:
                res["status"] = "inconclusive"
                res["errors"].append(f"z3: {e}")
                break
            except RecursionError as e:
                res["status"] = "inconclusive"
                res["errors"].append("recursion")
                break
            except Exception as e:
                # the code under analysis raised: a violation if the real code does so too
                tb = traceback.format_exc(limit=-4)
                r, m = path_model(ctx)
                if r == "sat":
                    res["violations"].append({"label": "exception:" + type(e).__name__, "candidates": [m], "kind": "exception",
                                              "detail": tb})
                elif r != "unsat":
                    res["status"] = "inconclusive"
                    res["errors"].append("exception on a path: " + tb)
                if len(res["violations"]) >= 4:
                    work = []
            if ctx is not None:
                work.extend(ctx.pending)
                for n, a in ctx.inputs:
                    input_specs.setdefault(n, (a.lo, a.hi, a.isint))
    res["functions"] = sorted(cov.seen)
    if res["status"] == "held" and not res["violations"] and res["paths"] == 0:
        res["status"] = "inconclusive"
        res["errors"].append("vacuous: no path reaches the end of the scenario")
    if res["status"] == "held" and sc.expect_labels:
        missing = set(sc.expect_labels) - res["labels"]
        if missing and not res["violations"]:
            res["status"] = "inconclusive"
            res["errors"].append(f"claims never reached: {sorted(missing)}")
    if first_models:
        res["samples"] = [{k: float(v) for k, v in list(m.items())[:12]} for m in first_models[:2]]
    if res["status"] == "held" and not res["violations"] and sc.validate:
        try:
            validate(sc, pkg, input_specs, stats, res, first_models)
        except Exception:
            res["status"] = "inconclusive"
            res["errors"].append("translator validation failed to run: " + traceback.format_exc(limit=-4))
    # a path is reachable by a model of it, or by a concrete run that completes one
    reach = reach or res["validated"]
    res["reachable_paths_confirmed"] = reach
    if res["status"] == "held" and not res["violations"] and reach == 0:
        res["status"] = "inconclusive"
        res["errors"].append("vacuous: no completed path is satisfiable")
    res["inputs"] = len(input_specs)
    return _finish(res, stats, t0)


def _finish(res, stats, t0):
    stats.pop("_seed", None)
    res["stats"] = stats
    res["labels"] = sorted(res["labels"])
    res["wall_s"] = time.time() - t0
    return res


def sample_assignment(rng, specs, sc):
    d = {}
    for n, (lo, hi, isint) in specs.items():
        lo = -3.0 if lo is None else lo
        hi = 3.0 if hi is None else hi
        if isint:
            d[n] = rng.randint(int(math.ceil(lo)), int(math.floor(hi)))
        else:
            d[n] = round(rng.uniform(lo, hi), 4) if hi - lo > 1e-2 else rng.uniform(lo, hi)
            d[n] = min(max(d[n], lo), hi)
    if sc.sample:
        sc.sample(rng, d)
    return d


def validate(sc, pkg, specs, stats, res, models):
    """symbolic engine vs real package on concrete inputs"""
    rng = random.Random(SEED * 7919 + len(sc.name))
    todo = [sample_assignment(rng, specs, sc) for _ in range(sc.validate * 10)]
    todo += [{k: float(v) for k, v in m.items()} for m in models]
    done = 0
    for a in todo:
        if done >= sc.validate:
            break
        try:
            ctx, s = run_one(sc, pkg, [], {"_seed": SEED}, guided=a)
        except (PathAbort, KeyError):
            continue
        try:
            cs = concrete(sc, a, collect_only=True)
            if cs is None:
                continue
            if len(cs.obs) != len(s.obs):
                raise RuntimeError(f"observation count differs: {len(s.obs)} symbolic, {len(cs.obs)} real, inputs {a}")
            for (l1, v1), (l2, v2) in zip(s.obs, cs.obs):
                v1, v2 = float(v1), float(v2)
                if v1 == v2 or (v1 != v1 and v2 != v2):
                    continue
                if not abs(v1 - v2) <= 1e-6 * max(1.0, abs(v1), abs(v2)):
                    raise RuntimeError(f"{l1}: engine {v1!r}, real {v2!r}, inputs {a}")
        except Exception:
            if _real_violates(sc, a):
                # the real code breaks the property on inputs within the bounds: report it, the replay confirms
                res["violations"].append({"label": "translator validation input", "candidates": [a], "kind": "validation"})
                return
            raise
        done += 1
    res["validated"] = done


def _real_violates(sc, inputs):
    try:
        concrete(sc, inputs)
    except scen.Violation:
        return True
    except Exception as e:
        return any(f.filename.startswith(loader.SRC) for f in traceback.extract_tb(e.__traceback__))
    return False


def concrete(sc, inputs, collect_only=False):
    s = scen.ConcS(inputs, collect_only)
    old = core.CTX
    try:
        with warnings.catch_warnings(), scen.patched_rng(s), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            sc.fn(s, **sc.cfg)
    except scen.Skip:
        return None
    finally:
        core.CTX = old
    return s


# ---- parallel execution

def _child(sc, conn, mem_gb):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * 2 ** 30), int(mem_gb * 2 ** 30)))
        sys.setrecursionlimit(20000)
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        r = explore(sc)
    except MemoryError:
        r = {"scenario": sc.name, "status": "inconclusive", "errors": ["memory bound"], "violations": [], "paths": 0,
             "stats": {}, "labels": [], "functions": [], "wall_s": 0, "validated": 0, "aborted": 0, "samples": []}
    except BaseException:
        r = {"scenario": sc.name, "status": "inconclusive", "errors": [traceback.format_exc()], "violations": [], "paths": 0,
             "stats": {}, "labels": [], "functions": [], "wall_s": 0, "validated": 0, "aborted": 0, "samples": []}
    try:
        conn.send(r)
        conn.close()
    finally:
        os._exit(0)


def run_parallel(scs, jobs=None, mem_gb=6, on_result=None, deadline=None):
    """on_result(result) returning True ends the run (a violation is confirmed)"""
    jobs = jobs or min(8, os.cpu_count() or 1)
    start = time.time()
    ctx = mp.get_context("fork")
    # longest budget first
    queue = list(scs)
    again = {}
    running = {}
    results = []
    stop = False
    while queue or running:
        late = deadline is not None and time.time() - start > deadline
        if stop or late:
            for p, a, sc, t0 in running.values():
                p.kill()
                p.join(5)
                a.close()
                if late:
                    results.append(_lost(sc, "time bound of the whole check", time.time() - t0))
            if late:
                results += [_lost(sc, "time bound of the whole check", 0.0) for sc in queue]
            break
        while queue and len(running) < jobs:
            sc = queue.pop(0)
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_child, args=(sc, b, mem_gb))
            p.start()
            b.close()
            running[p.pid] = (p, a, sc, time.time())
        time.sleep(0.01)
        for pid in list(running):
            p, a, sc, t0 = running[pid]
            r = None
            if a.poll():
                try:
                    r = a.recv()
                except EOFError:
                    r = _lost(sc, "worker died", time.time() - t0)
            elif not p.is_alive():
                r = _lost(sc, "worker died", time.time() - t0)
            elif time.time() - t0 > sc.budget + 60:
                p.kill()
                r = _lost(sc, "time bound", time.time() - t0)
            if r is not None:
                p.join(5)
                if p.is_alive():
                    p.kill()
                a.close()
                del running[pid]
                if r["errors"] == ["worker died"] and again.setdefault(sc.name, 0) < 2:
                    again[sc.name] += 1     # the solver library crashed: decide the scenario afresh
                    queue.insert(0, sc)
                    continue
                results.append(r)
                if on_result is not None and on_result(r):
                    stop = True
    return results


def _lost(sc, why, dt):
    return {"scenario": sc.name, "status": "inconclusive", "errors": [why], "violations": [], "paths": 0, "stats": {},
            "labels": [], "functions": [], "wall_s": dt, "validated": 0, "aborted": 0, "samples": []}


# ---- replay

def load_check(prop):
    return importlib.import_module("checks." + prop.lower())


def find_scenario(prop, name):
    for sc in load_check(prop).scenarios():
        if sc.name == name:
            return sc
    raise SystemExit(f"unknown scenario {name}")


def replay_file(path):
    """exit 1 if the recorded inputs violate the property on the real code, 0 otherwise"""
    d = json.load(open(path))
    sc = find_scenario(d["property"], d["scenario"])
    inputs = {k: _parse(v) for k, v in d["inputs"].items()}
    sys.setrecursionlimit(20000)
    importlib.import_module("adctoolbox")
    try:
        s = concrete(sc, inputs)
    except scen.Violation as v:
        print(f"VIOLATED {d['property']} scenario={d['scenario']} claim={v.label}: {v.detail}")
        return 1
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if not any(f.filename.startswith(loader.SRC) for f in tb):
            traceback.print_exc()
            print("error in the scenario itself")
            return 5
        print(f"VIOLATED {d['property']} scenario={d['scenario']} claim=exception {type(e).__name__}: {e}")
        traceback.print_exc()
        return 1
    if s is None:
        print("inputs do not meet the scenario's assumptions")
        return 4
    print("property holds on these inputs")
    return 0


def _parse(v):
    if isinstance(v, str) and "/" in v:
        return Fraction(v)
    return float(v)


def write_replay(prop, sc_name, label, cand, n):
    d = os.path.join(EVID, "replay")
    os.makedirs(d, exist_ok=True)
    safe = "".join(ch if ch.isalnum() else "_" for ch in sc_name)
    p = os.path.join(d, f"{prop}-{safe}-{n}.json")
    with open(p, "w") as f:
        json.dump({"property": prop, "scenario": sc_name, "claim": label,
                   "inputs": {k: (str(v) if isinstance(v, Fraction) and v.denominator != 1 else float(v)) for k, v in cand.items()},
                   "values": {k: float(v) for k, v in cand.items()},
                   "how": f"python3 /verif/check.py --replay {p}"}, f, indent=1)
    return p


def run_replay(path):
    r = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), "--replay", path], capture_output=True, text=True,
                       timeout=300)
    return r.returncode, (r.stdout.strip().splitlines() or [""])[0]


def known_findings(prop):
    """lines `known: property=C07 scenario=<name> claim=<label> :: <what fails>` of known_findings.txt"""
    p = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(p):
        return []
    out = []
    for line in open(p):
        m = re.match(r"known: property=(\S+) scenario=(\S+) claim=(.*?) :: (.*)$", line.strip())
        if m and m.group(1) == prop:
            out.append({"scenario": m.group(2), "claim": m.group(3), "what": m.group(4)})
    return out


def main(prop, tier, only=None, jobs=None, verbose=False, keep_going=False):
    t0 = time.time()
    mod = load_check(prop)
    scs = [s for s in mod.scenarios() if tier == "thorough" or s.tier == "quick"]
    if only:
        scs = [s for s in scs if any(o in s.name for o in only)]
    load_err = None
    try:
        package()
    except Exception:
        load_err = traceback.format_exc(limit=-3)
    try:
        importlib.import_module("adctoolbox")
    except Exception:
        load_err = traceback.format_exc(limit=-3)
    if load_err:
        print("package does not load:\n" + load_err)
        return 2
    known = known_findings(prop)
    confirmed, unconfirmed, known_hit = [], [], []

    def confirm(t):
        sname, n, v = t
        for m, cand in enumerate(v["candidates"]):
            path = write_replay(prop, sname, v["label"], cand, f"{n}-{m}")
            try:
                rc, msg = run_replay(path)
            except subprocess.TimeoutExpired:
                rc, msg = 1, "replay does not terminate"
            if rc == 1:
                return path, msg
        return None
    budget = [120]       # replays

    def on_result(r):
        """replay the counterexamples of a finished scenario on the real code"""
        todo, seen = [], {}
        for n, v in enumerate(r["violations"]):
            seen[v["label"]] = seen.get(v["label"], 0) + 1
            if seen[v["label"]] <= 3:
                todo.append((r["scenario"], n, v))
        if not todo:
            return False
        with ThreadPoolExecutor(4) as ex:
            for (sname, n, v), res in zip(todo, ex.map(confirm, todo if budget[0] > 0 else todo[:1])):
                budget[0] -= len(v["candidates"])
                if res is None:
                    unconfirmed.append(f"{sname}: counterexample for {v['label']} not reproduced by the real code "
                                       f"({len(v['candidates'])} candidates)" + (" " + v.get("detail", "")))
                    continue
                kf = [k for k in known if k["scenario"] == sname and k["claim"] in (v["label"], "*")]
                if kf:
                    known_hit.append((kf[0], res[0]))
                else:
                    confirmed.append((sname, v["label"], res[0], res[1]))
        return len(confirmed) > 0 and not keep_going
    results = run_parallel(scs, jobs, on_result=on_result, deadline=float(os.environ.get("VERIF_DEADLINE", 780 if tier == "quick" else 10800)))
    errors = [f"{r['scenario']}: {e}" for r in sorted(results, key=lambda r: r["scenario"]) for e in r["errors"]]
    agg = {}
    for r in results:
        for k, v in r["stats"].items():
            if isinstance(v, (int, float)):
                agg[k] = max(agg.get(k, 0), v) if k == "max_query_s" else agg.get(k, 0) + v
    funcs = sorted({f for r in results for f in r["functions"]})
    paths = sum(r["paths"] for r in results)
    ev = {
        "property": prop, "tier": tier, "seed": SEED, "level": "model_checking",
        "coverage": {
            "states": paths, "transitions": int(agg.get("branches", 0)),
            "traces_validated_against_impl": sum(r["validated"] for r in results),
            "samples": [{"scenario": r["scenario"], "path_inputs": s} for r in results for s in r["samples"][:1]][:8],
            "states_are": "feasible symbolic paths executed to the end; transitions are symbolic branch decisions",
            "paths_cut_by_assumption": sum(r["aborted"] for r in results),
            "scenarios": len(results), "scenarios_held": sum(r["status"] == "held" and not r["violations"] for r in results),
            "queries": int(agg.get("queries", 0)), "claims": int(agg.get("claims", 0)),
            "claims_decided_by_solver": int(agg.get("claims_solver", 0)),
            "claims_decided_by_linear_relaxation": int(agg.get("claims_linear_relaxation", 0)),
            "claims_reduced_to_true_by_normalisation": int(agg.get("claims_normalised", 0)),
            "solver_s": round(agg.get("solver_s", 0.0), 3), "max_query_s": round(agg.get("max_query_s", 0.0), 3),
            "functions_encoded": funcs, "claims_labels": sorted({l for r in results for l in r["labels"]}),
            "bounds": getattr(mod, "BOUNDS", ""), "outside_bounds": getattr(mod, "OUTSIDE", ""),
            "per_scenario": [{"scenario": r["scenario"], "status": "violated" if r["violations"] else r["status"], "paths": r["paths"],
                              "queries": r["stats"].get("queries", 0), "wall_s": round(r["wall_s"], 2)} for r in sorted(results, key=lambda r: r["scenario"])],
            "inconclusive": errors[:10] + unconfirmed[:10],
            "technique": "symbolic execution of /repo/python/src/adctoolbox source, z3 " + z3.get_version_string(),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + [
            "floating-point arithmetic is modelled as exact real arithmetic; claims carry an explicit tolerance",
            "numpy/scipy primitives are modelled by engine/npshim.py, validated against the real ones on concrete runs"],
        "violations": len(confirmed), "wall_s": round(time.time() - t0, 2),
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if verbose:
        for r in sorted(results, key=lambda r: -r["wall_s"]):
            print(f"  {r['scenario']:44s} {'VIOL' if r['violations'] else r['status']:12s} paths={r['paths']} cut={r['aborted']} "
                  f"q={r['stats'].get('queries', 0)} solver={r['stats'].get('solver_s', 0):.1f} wall={r['wall_s']:.1f} val={r['validated']}"
                  f" {[v['label'] for v in r['violations']]}")
    for kf in {k["what"]: k for k, _ in known_hit}.values():
        print(f"KNOWN-FINDING: property={prop} {kf['what']}")
    for sname, label, path, msg in confirmed:
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  {msg}")
    print(f"{prop} tier={tier}: {len(results)} scenarios, {paths} paths, {ev['coverage']['queries']} queries, "
          f"solver {ev['coverage']['solver_s']} s, wall {ev['wall_s']} s")
    if confirmed:
        return 1
    if errors or unconfirmed:
        for e in errors[:10] + unconfirmed[:10]:
            print("INCONCLUSIVE " + e)
        return 2
    print(f"{prop} held within the stated bounds")
    return 0
