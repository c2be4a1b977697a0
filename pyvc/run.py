"""Runs the contracts of one property and reports.

usage: run.py PROP [--unit NAME] [-v] [--n N] [--no-sym] [--no-conc] [--serial]
       run.py --replay FILE
"""
import argparse
import ast
import base64
import collections
import importlib
import importlib.machinery
import importlib.util
import json
import logging
import multiprocessing
import os
import pickle
import random
import signal
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("PYVC_REPO", "/repo")


def setup():
    for k, v in {"TF_CPP_MIN_LOG_LEVEL": "3", "CUDA_VISIBLE_DEVICES": "-1", "TF_ENABLE_ONEDNN_OPTS": "0",
                 "TF_NUM_INTRAOP_THREADS": "1", "TF_NUM_INTEROP_THREADS": "1", "OMP_NUM_THREADS": "1"}.items():
        os.environ.setdefault(k, v)
    sys.dont_write_bytecode = True
    sys.path[0:0] = [REPO, VERIF]
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    warnings.filterwarnings("ignore")
    logging.disable(logging.CRITICAL)
    import tensorflow_transform
    real = os.path.realpath(os.path.dirname(tensorflow_transform.__file__))
    if real != os.path.realpath(os.path.join(REPO, "tensorflow_transform")):
        raise SystemExit(f"wrong package under test: {real}")
    from pyvc import interp
    interp.set_repo(REPO)


def make_interp():
    from pyvc import interp, models, models_seg, models_coder, models_map, models_tab, models_tf
    ip = interp.Interp()
    ip.sym_attr = lambda o, n: models.sym_attr(ip, o, n)
    models.install(ip)
    models_tf.install(ip)
    models_tab.install(ip)
    models_seg.install(ip)
    models_coder.install(ip)
    models_map.install(ip)
    return ip


class UnitTimeout(BaseException):
    pass


def _alarm(*a):
    raise UnitTimeout()


def run_unit(args):
    prop, idx, opt = args
    from pyvc import core, harness, models, solve
    u = harness.UNITS[prop][idx]
    out = {"unit": u.name, "bounded": u.bounded, "note": u.note, "sym": None, "conc": None, "replay": None,
           "cross": None, "error": None}
    gone = [t.why for t in u.targets if isinstance(t, harness.Missing)]
    if gone:
        out["sym"] = {"unit": u.name, "obligations": [], "paths": 0, "unsupported": f"interface changed: {gone[0]}", "functions": {},
                      "externals": [], "refuted": [], "wall_s": 0, "solver": {}}
        out["wall_s"] = 0
        return out
    signal.signal(signal.SIGALRM, _alarm)
    t0 = time.time()
    scale = 4 if opt["tier"] == "thorough" else 1
    core.STACK.clear()
    solve.STATS.clear()
    refuted = []
    if u.sym and opt["sym"]:
        signal.alarm(int(u.max_s * scale * 2 + 30))
        ms, ts = u.max_s, u.timeout_s
        try:
            u.max_s, u.timeout_s = ms * scale, ts * scale
            r = harness.run_sym(u, make_interp)
        except UnitTimeout:
            r = {"unit": u.name, "obligations": [], "paths": 0, "unsupported": "wall clock limit", "functions": {},
                 "externals": [], "refuted": [], "wall_s": time.time() - t0, "solver": {}}
        finally:
            u.max_s, u.timeout_s = ms, ts
            signal.alarm(0)
            core.STACK.clear()
        refuted = r.pop("refuted")
        r["refuted"] = [{k: (str(v)[:1500] if k == "model" and v is not None else v) for k, v in x.items()} for x in refuted]
        out["sym"] = r
    if refuted and u.conc:
        signal.alarm(90)
        try:
            rp = harness.replay_models(u, refuted, opt["seed"])
        except UnitTimeout:
            rp = None
        finally:
            signal.alarm(0)
        if rp:
            rp["tape"] = pack(rp.pop("_drawn"))
            out["replay"] = rp
    if u.conc and opt["conc"] and not out["replay"]:
        signal.alarm(int(u.conc_s * scale * 3 + 60))
        try:
            n = opt["n"] or u.conc * scale
            c = harness.run_conc(u, opt["seed"], n, u.conc_s * scale)
            if c["fail"]:
                c["fail"]["tape"] = pack(c["fail"].pop("_drawn"))
            out["conc"] = c
        except UnitTimeout:
            out["conc"] = {"runs": 0, "ok": 0, "checks": 0, "distinct": 0, "sample": None, "fail": None,
                           "timeout": True}
        finally:
            signal.alarm(0)
    if u.sym and u.conc and opt["sym"] and not out["replay"] and out["sym"]["unsupported"] is None:
        # engine cross-check on concrete inputs
        stat = {"compared": 0, "skipped": 0, "mismatch": []}
        ip = make_interp()
        signal.alarm(60)
        try:
            t1 = time.time()
            consts = harness.mine(u.targets)
            for i in range(8):
                if time.time() - t1 > 4:
                    break
                harness.one_conc(u, opt["seed"] * 31 + i, consts, cross=(ip, stat))
        except UnitTimeout:
            pass
        finally:
            signal.alarm(0)
            core.STACK.clear()
        out["cross"] = stat
    out["wall_s"] = time.time() - t0
    return out


def pack(drawn):
    try:
        return base64.b64encode(pickle.dumps(drawn)).decode()
    except Exception:
        return None


def run_unit_safe(a):
    try:
        return run_unit(a)
    except BaseException as e:
        return {"unit": a, "error": "".join(traceback.format_exception(type(e), e, e.__traceback__))[-2000:],
                "sym": None, "conc": None, "replay": None, "cross": None, "bounded": None, "note": "", "wall_s": 0,
                "index": a[1]}


class _Finder:
    """Contracts are loaded with every function in their target lists guarded:
    one that is missing makes its contract undecided, not the whole check."""

    def find_spec(self, name, path=None, target=None):
        if not name.startswith("contracts.C"):
            return None
        fn = os.path.join(VERIF, "contracts", name.split(".")[1] + ".py")
        return importlib.util.spec_from_file_location(name, fn, loader=_Loader(name, fn))


class _Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimize=-1):
        tree = ast.parse(data)
        for n in ast.walk(tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "unit" and len(n.args) > 2 and isinstance(n.args[2], ast.List):
                n.args[2].elts = [ast.copy_location(ast.Call(ast.Name("__target__", ast.Load()), [ast.Lambda(
                    ast.arguments([], [], None, [], [], None, []), x)], []), x) for x in n.args[2].elts]
        tree.body.insert(0, ast.parse("from pyvc.harness import target as __target__").body[0])
        return compile(ast.fix_missing_locations(tree), path, "exec")

    def get_code(self, name):
        return self.source_to_code(self.get_data(self.path), self.path)


def load(prop):
    sys.meta_path.insert(0, _Finder())
    importlib.import_module(f"contracts.{prop}")
    from pyvc import harness
    return harness.UNITS.get(prop, [])


def replay_file(path):
    with open(path) as f:
        d = json.load(f)
    from pyvc import harness
    us = [u for u in load(d["property"]) if u.name == d["unit"]]
    if not us:
        print("no such contract:", d["unit"])
        return 2
    if not d.get("tape"):
        print(json.dumps(d, indent=1)[:6000])
        print("no concrete input recorded")
        return 2
    tape = pickle.loads(base64.b64decode(d["tape"]))
    st, fail, env = harness.one_conc(us[0], d["seed"], harness.mine(us[0].targets), tape=tape,
                                     choices=d.get("choices"))
    print("inputs:", [(a, repr(b)[:200]) for a, b in env.drawn])
    print("outcome:", st, fail)
    return 1 if st == "fail" else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--unit")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--n", type=int, default=0)
    ap.add_argument("--no-sym", action="store_true")
    ap.add_argument("--no-conc", action="store_true")
    ap.add_argument("--serial", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--baseline", action="store_true", help="record which units are fully discharged")
    a = ap.parse_args()
    t0 = time.time()
    setup()
    if a.replay:
        sys.exit(replay_file(a.replay))
    prop = a.prop
    units = load(prop)
    from pyvc import solve
    tier = "thorough" if a.tier == "thorough" else "quick"
    opt = {"tier": tier, "seed": a.seed, "sym": not a.no_sym, "conc": not a.no_conc, "n": a.n}
    todo = [(prop, i, opt) for i, u in enumerate(units) if not a.unit or a.unit in u.name]
    todo.sort(key=lambda t: -units[t[1]].weight)
    if not todo:
        print("no contracts for", prop)
        sys.exit(2)
    sys.stdout.flush()
    if a.serial:
        results = [run_unit_safe(t) for t in todo]
    else:
        ctx = multiprocessing.get_context("fork")
        with ctx.Pool(min(8, len(todo)), maxtasksperchild=4) as pool:
            results = pool.map(run_unit_safe, todo, chunksize=1)
    by = {t[1]: r for t, r in zip(todo, results)}
    results = [(units[i], by[i]) for i in sorted(by)]
    sys.exit(report(prop, tier, a, results, t0))


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith(f"finding: property={prop} "):
                # finding: property=ID unit=<name> label=<label> :: what fails
                head, what = line.split(" :: ", 1)
                fields = dict(x.split("=", 1) for x in head.split(" | ")[1:])
                out.append((fields["unit"], fields["label"], what))
    return out


def report(prop, tier, a, results, t0):
    base_path = os.path.join(VERIF, "pyvc", "baseline.json")
    baseline = json.load(open(base_path)) if os.path.exists(base_path) else {}
    base = set(baseline.get(prop, []))
    violations, undecided, errors, proved_units = [], [], [], []
    n_ob = n_dis = 0
    n_eval = n_dist = n_checks = 0
    samples, funcs, ext, solver = [], {}, set(), collections.Counter()
    solver_s = collections.Counter()
    abstract_only = 0
    bounded_units = []
    cross = {"compared": 0, "skipped": 0, "mismatch": []}
    unit_rows = []
    for u, r in results:
        if r.get("error"):
            errors.append((u.name, r["error"]))
            continue
        s, c = r["sym"], r["conc"]
        ok = False
        posts = []
        if s is not None:
            posts = [o for o in s["obligations"] if o[1] != "cover"]
            if not u.bounded:
                n_ob += len(posts)
                n_dis += sum(1 for o in posts if o[2] == "proved")
            for k, (cnt, sec) in s["solver"].items():
                solver[k] += cnt
                solver_s[k] += sec
            if not u.bounded:
                funcs.update(s["functions"])
            ext.update(s["externals"])
            ok = s["unsupported"] is None and posts and all(o[2] == "proved" for o in posts)
            if r.get("cross"):
                cross["compared"] += r["cross"]["compared"]
                cross["skipped"] += r["cross"]["skipped"]
                cross["mismatch"] += r["cross"]["mismatch"]
                if r["cross"]["mismatch"]:
                    ok = False
                    undecided.append((u.name, "interpreter disagrees with CPython: " + r["cross"]["mismatch"][0]))
            if ok and not u.bounded:
                proved_units.append(u.name)
            if not ok:
                if s["unsupported"]:
                    undecided.append((u.name, s["unsupported"]))
                bad = [o for o in posts if o[2] != "proved"]
                exact = [x for x in s["refuted"] if x["status"] == "refuted" and not x["abstract"]]
                if r["replay"]:
                    violations.append((u.name, r["replay"], True))
                elif c and c["fail"]:
                    pass
                elif exact and u.exact and s["unsupported"] is None and u.name in base:
                    violations.append((u.name, {"label": exact[0]["label"], "obligation": exact[0]["label"],
                                                "model": exact[0]["model"], "verifier": exact[:5]}, False))
                elif bad:
                    undecided.append((u.name, "not discharged: " + "; ".join(f"{o[0]} [{o[2]}]" for o in bad[:3])))
        if c is not None:
            n_eval += c["runs"]
            n_dist += c["distinct"]
            n_checks += c["checks"]
            if c["sample"] and len(samples) < 6:
                samples.append(f"{u.name}: {c['sample']}")
            if c["fail"]:
                violations.append((u.name, c["fail"], True))
            if c.get("interface"):
                undecided.append((u.name, "interface changed: " + c["interface"]))
            elif c.get("timeout"):
                undecided.append((u.name, "run-time contract timed out"))
            elif c["runs"] and not c["ok"] and not c["fail"]:
                undecided.append((u.name, "no generated input satisfied the precondition"))
        if u.bounded or not u.sym:
            bounded_units.append(f"{u.name}: {u.bounded or 'run-time contract on generated inputs'}")
        row = {"unit": u.name, "obligations": len(posts), "discharged": sum(1 for o in posts if o[2] == "proved"),
               "paths": s["paths"] if s else 0, "runtime_runs": c["runs"] if c else 0, "wall_s": round(r["wall_s"], 1)}
        if u.bounded or not u.sym:
            row["bounded"] = True
        unit_rows.append(row)
        if a.v:
            print(f"-- {u.name}: {row} {('UNSUPPORTED ' + s['unsupported']) if s and s['unsupported'] else ''}")
            for o in posts:
                if o[2] != "proved":
                    print("     ", o)
            if s:
                for x in s["refuted"][:3]:
                    print("      refuted", x["label"], "abstract" if x["abstract"] else "exact", x["choices"], (x["model"] or "")[:600])
            if c:
                print("      conc", {k: v for k, v in c.items() if k not in ("fail", "sample")})
            if r.get("cross"):
                print("      cross", r["cross"])
    known = known_findings(prop)
    reported = []
    for (name, info, replayed) in violations:
        k = [w for (un, lab, w) in known if un == name and lab == info["label"]]
        if k:
            print(f"KNOWN-FINDING: property={prop} {k[0]}")
        else:
            reported.append((name, info, replayed))
    if not a.unit:
        for (un, lab, w) in known:
            if not any(un == n and lab == i["label"] for n, i, _ in violations):
                pass
    rdir = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    lines = []
    for i, (name, info, replayed) in enumerate(reported):
        path = os.path.join(rdir, f"{prop}_{i}.json")
        d = {"property": prop, "unit": name, **info,
             "how": f"cd /verif && ./check --replay {path}" if replayed else "the verifier's output is recorded here"}
        with open(path, "w") as f:
            json.dump(d, f, indent=1, default=str)
        print(f"  contract '{name}' fails: {info['label']}")
        if info.get("detail"):
            print("   ", str(info["detail"])[:600])
        if info.get("inputs"):
            print("    inputs:", str(info["inputs"])[:600])
        lines.append(f"VIOLATION property={prop} replay={path}" + ("" if replayed else " no-failing-input-found"))
    for n, w in undecided:
        print(f"UNDECIDED {prop} {n}: {w[:500]}")
    for n, w in errors:
        print(f"ERROR {prop} {n}: {w[-800:]}")
    wall = time.time() - t0
    level = manifest_level(prop) or ("proof" if n_ob else "exploration")
    cov = {
        "obligations": n_ob, "discharged": n_dis,
        "checker_cmd": f"./check {prop} (pyvc generates the obligations from {REPO}'s source on every run; back ends ring normal form, z3, z3 nlsat, cvc5)",
        "trusted_base": sorted(["pyvc VC generator (AST interpreter, path exploration)", "z3 5.3.2", "cvc5", "CPython/NumPy/TensorFlow outside the modelled calls"] + ["model of " + str(e) for e in ext])[:120],
        "evaluations": n_eval, "distinct_nontrivial": n_dist,
        "rule": "run-time contracts: inputs drawn by the seeded generators of each contract, constants mined from the current source of the functions under contract; an input counts when it satisfies the precondition and differs from every other drawn input",
        "samples": [x[:600] for x in samples[:4]],
        "runtime_checks": n_checks,
        "functions_under_contract": {k: f"{os.path.relpath(v[0], REPO)}:{v[1]}" for k, v in sorted(funcs.items())[:150]},
        "solver_queries": dict(solver), "solver_seconds": {k: round(v, 2) for k, v in solver_s.items()},
        "proved_contracts": proved_units, "bounded_contracts": bounded_units, "contracts": unit_rows,
        "undecided": [f"{n}: {w}"[:300] for n, w in undecided],
        "engine_cross_check": {"compared": cross["compared"], "skipped": cross["skipped"], "mismatches": len(cross["mismatch"])},
    }
    ev = {"property": prop, "tier": tier, "seed": a.seed, "level": level, "coverage": cov,
          "assumptions": ASSUMPTIONS, "wall_s": round(wall, 1), "violations": len(reported)}
    if not a.unit:
        txt = json.dumps(ev, indent=1, default=str)
        if len(txt) > 60000:
            cov["functions_under_contract"] = list(cov["functions_under_contract"])[:80]
            cov["contracts"] = cov["contracts"][:60]
            txt = json.dumps(ev, default=str)
        with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
            f.write(txt)
    print(f"{prop} [{tier}] {len(results)} contracts, {n_dis}/{n_ob} obligations discharged ({len(proved_units)} contracts proved), "
          f"{n_eval} run-time evaluations, {len(undecided)} undecided, {wall:.1f} s")
    if a.baseline:
        baseline[prop] = sorted(proved_units)
        with open(base_path, "w") as f:
            json.dump(baseline, f, indent=1, sort_keys=True)
            f.write("\n")
    for l in lines:
        print(l)
    if reported:
        return 1
    if errors:
        return 3
    if n_ob == 0 and n_eval == 0:
        print("vacuous run")
        return 3
    return 0


def manifest_level(prop):
    try:
        with open(os.path.join(VERIF, "MANIFEST.json")) as f:
            for c in json.load(f)["checks"]:
                if c["property"] == prop:
                    return c["level"]
    except Exception:
        pass
    return None


ASSUMPTIONS = [
    "floating point is treated as exact real arithmetic in the proofs; the run-time contracts compare up to 1e-6 relative rounding",
    "NumPy and Python integers are unbounded in the proofs",
    "library calls listed in trusted_base behave as their models in /verif/pyvc/models*.py state",
    "partial correctness: termination of loops is not proved",
]

if __name__ == "__main__":
    main()
