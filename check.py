#!/opt/venv/bin/python
"""check.py C01 [--tier quick|thorough] [--harness NAME] [--budget S]    decide a property
check.py --replay FILE                                                  replay a counterexample on the unmodified code"""
import argparse
import importlib
import json
import os
import subprocess
import sys
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)
REPO = os.environ.get("TREENO_REPO", "/repo")
PY = "/opt/venv/bin/python"
BUDGET = {"quick": 75, "thorough": 3000}


def replay_main(path):
    """Exit 1 if the recorded counterexample breaks the property on the unmodified code, 0 if not."""
    import io

    sys.path.insert(0, REPO)
    with open(path) as f:
        case = json.load(f)
    from sx.api import ConcreteCtx, stale
    from sx.core import PathAbort

    mod = importlib.import_module("props." + case["property"].lower())
    h = {x.name: x for x in mod.HARNESSES}[case["harness"]]
    params = h.thorough_params if case["tier"] == "thorough" else h.params
    ctx = ConcreteCtx(case["inputs"], case["tier"], params)
    err = sys.stderr
    sys.stderr = io.StringIO()
    try:
        h.fn(ctx)
    except PathAbort:
        pass
    except Exception as e:
        if not stale(e):
            ctx.failures.append(("no unexpected exception", "%s: %s" % (type(e).__name__, str(e)[:300])))
    finally:
        sys.stderr = err
    for label, detail in ctx.failures:
        print("FAILED: %s%s" % (label, " -- " + str(detail)[:1500] if detail else ""))
    print("replay: %s" % ("property broken" if ctx.failures else "property holds on this input"))
    return 1 if ctx.failures else 0


def load_known():
    p = os.path.join(HERE, "known-findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--harness")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--all", action="store_true", help="do not stop at the first violation")
    ap.add_argument("--selftest", action="store_true", help="check that the interpreter, z3, the instrumenter and the parser are usable")
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args()
    if args.selftest:
        import z3

        from sx import instrument, lexer

        instrument.install()
        lexer.install()
        from treeno.builder.convert import expression_from_sql

        s = z3.Solver()
        s.add(z3.Int("x") > 3)
        assert s.check() == z3.sat and str(expression_from_sql("a + 1")) == '"a" + 1'
        here = os.path.dirname(os.path.abspath(__file__))
        subprocess.run([sys.executable, os.path.join(here, "tools", "test_models.py")], check=True, env={**os.environ, "PYTHONPATH": os.pathsep.join(sys.path)})
        print("selftest ok")
        sys.exit(0)
    if args.replay:
        sys.exit(replay_main(args.replay))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = args.tier if args.tier in BUDGET else "quick"
    t0 = time.time()
    sys.setrecursionlimit(8000)

    from sx import instrument, lexer

    instrument.install()
    lexer.install()
    from sx import explore

    prop = args.prop
    mod = importlib.import_module("props." + prop.lower())
    hs = [h for h in mod.HARNESSES if not args.harness or h.name == args.harness]
    budget = args.budget or BUDGET[tier]
    from props import corpus

    try:
        corpus.warm_up()
    except Exception as e:  # only warms the parser's caches
        print("note: warm-up stopped: %s: %s" % (type(e).__name__, str(e)[:200]))
    ex = explore.Explorer(prop, hs, tier, seed, budget, args.jobs)
    known = [k for k in load_known() if k["property"] == prop and k.get("status") == "open"]
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(rdir, f))
    confirmed, spurious, seen = [], [], {}
    kf_seen = {}

    def on_cand(cands):
        for hname, label, detail, a in cands:
            key = (hname, label, detail.split("at ")[-1] if label.startswith("no unexpected") else "")
            n = seen.get(key, 0)
            if n >= (2 if not args.all else 3):
                continue
            seen[key] = n + 1
            path = os.path.join(rdir, "%s-%d.json" % (prop, len(confirmed) + len(spurious)))
            with open(path, "w") as f:
                json.dump({"property": prop, "harness": hname, "tier": tier, "label": label, "inputs": a}, f, indent=1)
            env = {k: v for k, v in os.environ.items()}
            r = subprocess.run([PY, os.path.join(HERE, "check.py"), "--replay", path], capture_output=True, text=True, timeout=300, env=env)
            if r.returncode == 1 and "property broken" in r.stdout:
                confirmed.append((hname, label, detail, path, r.stdout.strip()))
                if args.v or args.all:
                    print("---", hname, label, "|", detail)
                    print(r.stdout.strip()[:1200])
            else:
                spurious.append((hname, label, detail, path, (r.stdout + r.stderr)[-600:]))
                if args.v or args.all:
                    print("--- NOT REPRODUCED", hname, label, "|", detail, r.returncode, r.stdout[-300:], r.stderr[-300:])
                    print(a)
        return bool(confirmed) and not args.all

    ex.run(on_cand)
    wall = time.time() - t0
    # ------------------------------------------------------------------ evidence
    tot = explore.Stats()
    per = {}
    vac = []
    for h in hs:
        st = ex.stats[h.name]
        tot.merge(st)
        reached = st.get("reached", set())
        if not any(not r.startswith("reach:") for r in reached) and not confirmed:
            vac.append(h.name)
        per[h.name] = {
            "bounds": h.bounds if isinstance(h.bounds, str) else h.bounds(tier),
            "outside": h.outside,
            "paths": st.get("paths", 0),
            "obligations": st.get("obligations", 0),
            "discharged": st.get("discharged", 0),
            "unexplored_prefixes": ex.left[h.name],
            "finished_after_s": ex.done_at.get(h.name),
            "labels_reached": sorted(reached)[:60],
            "pins": st.get("pins", {}),
        }
    trunc = sum(ex.left.values())
    samples = []
    for h in hs:
        samples += list(ex.stats[h.name].get("samples", {}))[:4]
    if not samples:
        samples = ["(no sample recorded)"]
    cov = {
        "explanation": "Concolic symbolic execution of the code in /repo (re-read and instrumented on this run): every path of each harness within its bounds is executed with symbolic inputs, z3 decides the feasibility of every alternative branch and discharges each obligation as pc AND NOT obligation = unsat. unexplored_prefixes counts path prefixes left when the time budget ended (0 = the bounded space was exhausted).",
        "paths": tot.get("paths", 0),
        "paths_without_pins": tot.get("exact_paths", 0),
        "aborted_by_assumption": tot.get("paths_abort", 0),
        "obligations": tot.get("obligations", 0),
        "discharged": tot.get("discharged", 0),
        "discharged_structurally": tot.get("discharged_structurally", 0),
        "queries": tot.get("branch_queries", 0) + tot.get("obligation_queries", 0),
        "branch_queries": tot.get("branch_queries", 0),
        "obligation_queries": tot.get("obligation_queries", 0),
        "feasible_alternatives": tot.get("feasible_alternatives", 0),
        "infeasible_alternatives": tot.get("infeasible_alternatives", 0),
        "structural_choice_alternatives": tot.get("choice_alternatives", 0),
        "solver_unknown": tot.get("unknown", 0),
        "solver_and_bookkeeping_s": round(tot.get("solver_s", 0), 2),
        "execution_s": round(tot.get("run_s", 0), 2),
        "unexplored_prefixes": trunc,
        "exhaustive": trunc == 0 and not tot.get("unknown") and not tot.get("pin_alternatives_cut"),
        "concretised_operations": tot.get("pins", {}),
        "pin_alternatives_cut": tot.get("pin_alternatives_cut", 0),
        "counterexamples_not_reproduced": len(spurious),
        "engine_errors": tot.get("engine_errors", 0),
        "vacuous_harnesses": vac,
        "functions_encoded": sorted(ex.entered),
        "functions_encoded_count": len(ex.entered),
        "functions_instrumented": len(instrument.FUNCS),
        "modules_not_instrumented": instrument.UNINSTRUMENTED,
        "harnesses": per,
        "samples": samples[:12],
    }
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": cov,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(confirmed),
    }
    if not args.harness:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    # ------------------------------------------------------------------ outcome
    print(
        "%s %s: %d harnesses, %d paths, %d obligations (%d discharged), %d queries, %d unexplored, %d unknown, %d pins, %.1fs"
        % (prop, tier, len(hs), cov["paths"], cov["obligations"], cov["discharged"], cov["queries"], trunc, cov["solver_unknown"], sum(tot.get("pins", {}).values()), wall)
    )
    if args.v:
        for n, p in per.items():
            print("  %-28s paths=%d obl=%d left=%d done=%s pins=%s" % (n, p["paths"], p["obligations"], p["unexplored_prefixes"], p["finished_after_s"], p["pins"]))
    if tot.get("engine_errors"):
        for e in list(tot.get("err", {}))[:2]:
            print("ENGINE ERROR (the path is inconclusive)", e)
    for e in tot.get("stale", {}):
        print("note: a helper a harness calls directly is gone (%s); those paths are inconclusive" % e)
    for k in known:
        # the finding is demonstrated on the current code by its own recorded input
        with open("/dev/null") as dn:
            r = subprocess.run([PY, "-c", k["demo"]], capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=REPO), timeout=120)
        if r.returncode != 0:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if confirmed:
        for hname, label, detail, path, out in confirmed[:5]:
            print("counterexample (%s, %s): %s" % (hname, label, out[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, confirmed[0][3]))
        sys.exit(1)
    if vac:
        print("INCONCLUSIVE: harnesses that reached no obligation: %s" % vac)
    if spurious:
        print("note: %d solver counterexamples did not reproduce on the unmodified code; those paths are inconclusive" % len(spurious))
    sys.exit(0)


if __name__ == "__main__":
    main()
