#!/opt/venv/bin/python
"""Decide one property: run_check.py C01 [--tier quick|thorough] [--budget S] [--case NAME]"""
import os
import sys

PY = "/opt/venv/bin/python"
if os.environ.get("SYMX_CHILD") != "1":
    env = dict(os.environ, SYMX_CHILD="1", NUMBA_DISABLE_JIT="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", PYTHONWARNINGS="ignore", PYTHONDONTWRITEBYTECODE="1")
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], env)

import argparse
import importlib
import json
import logging
import random
import re
import subprocess
import time
import warnings

T0 = time.time()
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
warnings.filterwarnings("ignore")
logging.disable(logging.CRITICAL)
REPO = os.environ.get("SYMX_REPO", "/repo")


class Replayer:
    """A clean process: no stand-ins, numba compiled, real pandas."""

    def __init__(self, interpreted=False):
        env = {k: v for k, v in os.environ.items() if k not in ("NUMBA_DISABLE_JIT", "SYMX_CHILD")}
        if interpreted:         # the check steers the kernels statement by statement
            env["NUMBA_DISABLE_JIT"] = "1"
        self.p = subprocess.Popen([sys.executable, os.path.join(HERE, "symx", "replay.py"), "--server"], env=env,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        self.n = 0

    def run(self, prop, tier, case, vals):
        from symx.replay import encode
        self.p.stdin.write(json.dumps(dict(prop=prop, tier=tier, case=case, vals=encode(vals))) + "\n")
        self.p.stdin.flush()
        self.n += 1
        line = self.p.stdout.readline()
        if not line:
            return dict(status="dead", msg="the replay process died")
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(3)
        except Exception:
            self.p.kill()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--budget", type=float)
    ap.add_argument("--case")
    ap.add_argument("--workers", type=int, default=int(os.environ.get("SYMX_WORKERS", "8")))
    ap.add_argument("--verbose", action="store_true")
    args = ap.parse_args()
    prop, tier = args.prop.upper(), args.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    rep = Replayer("\nINTERPRETED = True\n" in open(os.path.join(HERE, "checks", prop.lower() + ".py")).read())

    from symx import shims
    shims.install()
    mod = importlib.import_module("checks." + prop.lower())
    cases = mod.cases(tier)
    if args.case:
        cases = [c for c in cases if re.search(args.case, c.name)]
    assert len({c.name for c in cases}) == len(cases), "duplicate case names"
    import gc
    gc.collect()
    gc.freeze()
    from symx import explore
    explore.monitor(REPO)
    budget = args.budget or getattr(mod, "BUDGET", {}).get(tier) or (240 if tier == "quick" else 1500)
    ex = explore.Explorer(cases, seed, args.workers, wit_p=0.03)
    res = ex.run(budget)
    ex.close()
    t_sym = time.time() - T0

    known = load_known(prop)
    violations, known_hits, unrepro = [], {}, []
    out_dir = os.path.join(HERE, "replays")
    os.makedirs(out_dir, exist_ok=True)

    def report(case, msg, vals, r):
        text = f"{case}: {msg} | replay: {r['msg']}"
        for k in known:
            if re.search(k["match"], text):
                known_hits[k["id"]] = k
                return
        from symx.replay import encode
        n = len(violations)
        path = os.path.join(out_dir, f"{prop}-{n}.json")
        with open(path, "w") as f:
            json.dump(dict(property=prop, tier=tier, case=case, what=msg, observed=r["msg"], inputs=encode(vals)), f, indent=1)
        violations.append((text, path))

    per = {}
    for case, msg, variants in res.cex:
        key = (case, re.sub(r"[\d.\-]+", "#", msg))
        tried, shown = per.get(key, (0, 0))
        if tried >= 12 or shown >= 3 or len(violations) >= 6:
            continue
        ok = False
        for v in variants:
            r = rep.run(prop, tier, case, v)
            if r["status"] == "fail":
                report(case, msg, v, r)
                ok = True
                break
        per[key] = (tried + 1, shown + ok)
        if not ok:
            unrepro.append((case, msg, r))
    # paths the engine could not follow: their inputs are run on the real code, a few per kind in turn
    limited, todo, quiet = {}, {}, dict(replayed=0)
    for case, text, variants in res.limits:
        limited.setdefault((case, text), dict(paths=0, replayed=0))["paths"] += 1
        if variants:
            todo.setdefault((case, text), []).append(variants)
    for case, msg, variants in res.suspects:
        todo.setdefault((case, "no verdict: " + msg), []).append(variants)
    t_lim = time.time()
    while todo and time.time() - t_lim < (40 if tier == "quick" else 300) and len(violations) < 6:
        for key in list(todo):
            if not todo[key] or limited.get(key, quiet)["replayed"] >= 400:
                del todo[key]
                continue
            for v in todo[key].pop(0):
                r = rep.run(prop, tier, key[0], v)
                limited.get(key, quiet)["replayed"] += 1
                if r["status"] == "fail":
                    report(key[0], key[1], v, r)
                    break
    # the encoding against the implementation: witnesses of passed paths must pass there too
    validated = disagree = 0
    boundary = []
    rng = random.Random(seed)
    wit = list(res.witnesses)
    rng.shuffle(wit)
    seen = set()
    wit.sort(key=lambda w: 0 if w[0] not in seen and not seen.add(w[0]) else 1)
    t_val = time.time()
    for case, v, more in wit[:400 if tier == "quick" else 3000]:
        if time.time() - t_val > (15 if tier == "quick" else 120):
            break
        if len(violations) >= 6:
            break
        r = rep.run(prop, tier, case, v)
        if r["status"] == "ok":
            validated += 1
        elif r["status"] == "fail":
            if more:            # a witness away from every boundary
                report(case, "a path that passes symbolically fails on the real code", v, r)
            else:
                disagree += 1   # exact ties are decided by rounding there
                boundary.append(f"{case}: {r['msg']}")
    rep_n = rep.n
    rep.close()

    complete = not ex.left and not res.timeouts and not res.limits and not res.inconclusive and not unrepro and not ex.crashed
    reached_cases = [c.name for c in cases if res.reached.get(c.name)]
    s = res.stats
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=s.paths, transitions=s.branches, traces_validated_against_impl=validated, samples=rep_n,
            symbolic_paths_completed=s.paths, paths_infeasible=s.infeasible, solver_queries=s.queries,
            solver_seconds=round(s.solver_s, 2), queries_sat=s.sat, queries_unsat=s.unsat, queries_unknown=s.unknown,
            assertions=s.checks, assertions_by_normal_form=s.checks_nf,
            cases=[dict(name=c.name, bounds=c.bounds, paths=res.completed.get(c.name, 0),
                        assertions=res.reached.get(c.name, 0), seconds=ex.spent.get(c.name),
                        unexplored_branches=ex.left.get(c.name, 0)) for c in cases],
            complete_within_bounds=bool(complete),
            functions_encoded=sorted(res.funcs),
            inconclusive=[f"{c}: {m}" for c, m in res.inconclusive[:20]],
            engine_limits=[f"{c}: {t} x{d['paths']} ({d['replayed']} replayed)" for (c, t), d in list(limited.items())[:20]],
            path_timeouts=res.timeouts, worker_crashes=ex.crashed,
            counterexamples_found=len(res.cex), counterexamples_not_reproduced=[f"{c}: {m} {r}" for c, m, r in unrepro[:20]],
            boundary_rounding_disagreements=boundary[:10],
            known_findings=sorted(known_hits)),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + COMMON,
        violations=len(violations), wall_s=round(time.time() - T0, 2))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    print(f"{prop} [{tier}] cases={len(cases)} paths={s.paths} branches={s.branches} assertions={s.checks} "
          f"(normal form {s.checks_nf}) queries={s.queries} solver={s.solver_s:.1f}s replays={rep_n} validated={validated} "
          f"complete={complete} wall={time.time()-T0:.1f}s")
    for c, n in ex.left.items():
        print(f"  not exhausted: {c}: {n} branches left")
    for (c, t), d in list(limited.items())[:10]:
        print(f"  LIMIT {c}: {t} x{d['paths']} ({d['replayed']} concrete replays)")
    for c, m, r in unrepro[:10]:
        print(f"  NOT-REPRODUCED {c}: {m} {r}")
    for c, m in res.inconclusive[:10]:
        print(f"  INCONCLUSIVE {c}: {m}")
    if res.timeouts or ex.crashed:
        print(f"  path timeouts {res.timeouts}, crashes {ex.crashed}")
    missing = [c.name for c in cases if c.name not in reached_cases and c.name not in ex.left]
    if missing:
        print("  NO ASSERTION REACHED in:", ", ".join(missing))
    if args.verbose:
        for c in cases:
            print(f"   {c.name}: paths={res.completed.get(c.name,0)} assertions={res.reached.get(c.name,0)} s={ex.spent.get(c.name)}")
        if os.environ.get("SYMX_FUNCS"):
            print("   functions:", ", ".join(sorted(res.funcs)))
    for k in known_hits.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for text, path in violations:
        print("  " + text)
        print(f"VIOLATION property={prop} replay={path}")
    if violations:
        return 1
    if not s.checks and not any(d["replayed"] for d in limited.values()):
        print("ERROR: no assertion was reached")
        return 2
    return 0


COMMON = [
    "arithmetic is over the reals: rounding of floating point is outside the claim (replays use real floats)",
    "numba kernels are executed as their Python source in the symbolic run, compiled in the replays",
    "pandas rolling/ewm/reduction kernels on symbolic columns are replaced by their defining formulas "
    "(symx/shims.py), checked against pandas by tools/selftest.py and by witness replays",
]


def load_known(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == prop]


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
