#!/usr/bin/env python3
"""Make seeded/<id>/ out of plants.py-style definitions, confirming each change in a scratch copy of /repo.

usage: plant.py DEFS.py [ID ...]     (DEFS.py defines PLANTS, a list of dicts: id, prop, edits [(file, old, new)],
needs, breaks, demo (python source; fails with an exception when the behaviour is broken))
"""
import json, os, pathlib, runpy, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor

SEEDED = pathlib.Path(__file__).resolve().parent.parent / "seeded"
RESULTS = SEEDED.parent / "tools" / "seeded-results.json"
PY = "/opt/venv/bin/python"
DEMO_SH = '#!/bin/bash\nPYTHONPATH="$PWD" exec %s "$(dirname "$0")/demo.py"\n' % PY


def run(cmd, cwd, **env):
    return subprocess.run(cmd, cwd=cwd, env={**os.environ, **env}, capture_output=True, text=True)


def stable():
    return json.load(open("/opt/vp/BASELINE.json"))


def one(p, check=True):
    copy = pathlib.Path("/tmp/plant_%s" % p["id"])
    out = []
    shutil.rmtree(copy, ignore_errors=True)
    run(["cp", "-a", "/repo", str(copy)], "/tmp")
    try:
        d = SEEDED / p["id"]
        d.mkdir(parents=True, exist_ok=True)
        (d / "demo.py").write_text(p["demo"])
        (d / "demo.sh").write_text(DEMO_SH)
        (d / "demo.sh").chmod(0o755)
        (d / "meta.json").write_text(json.dumps({"property": p["prop"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, indent=1) + "\n")
        r = run(["bash", str(d / "demo.sh")], str(copy))
        if r.returncode:
            return p["id"], "DEMO FAILS CLEAN " + (r.stderr or r.stdout)[-300:]
        for file, old, new in p["edits"]:
            f = copy / file
            text = f.read_text()
            if text.count(old) != 1:
                return p["id"], "OLD TEXT x%d: %s" % (text.count(old), old[:60])
            line = text[: text.index(old)].count("\n") + 1
            f.write_text(text.replace(old, new))
        diff = run(["git", "diff"], str(copy)).stdout
        (d / "patch.diff").write_text(diff)
        # removed lines must be the original repository's
        import re
        cur, n, mixed, orig = None, 0, 0, 0
        for l in diff.splitlines():
            if l.startswith("--- a/"):
                cur = l[6:]
                blame = [b.split()[0].lstrip("^") for b in run(["git", "blame", "-s", "HEAD", "--", cur], str(copy)).stdout.splitlines()]
            elif l.startswith("@@"):
                n = int(re.match(r"@@ -(\d+)", l).group(1)) - 1
            elif l.startswith("-"):
                n += 1
                if blame[n - 1].startswith("fcc891d"):
                    orig += 1
                else:
                    mixed += 1
            elif l.startswith(" "):
                n += 1
        out.append("orig=%d fix=%d" % (orig, mixed))
        r = run(["bash", str(d / "demo.sh")], str(copy))
        out.append("demo ok" if r.returncode else "DEMO PASSES PATCHED")
        r = run([PY, "-m", "pytest", "-q", "-x", "--no-header", "-p", "no:cacheprovider"], str(copy), PYTHONPATH=str(copy))
        out.append(r.stdout.strip().splitlines()[-1][:40] if r.stdout.strip() else r.stderr[-200:])
        out += [l[:120] for l in r.stdout.splitlines() if l.startswith("FAILED")]
        if check:
            r = run(["./check.py", p["prop"], "--jobs", "4"], str(SEEDED.parent), TREENO_REPO=str(copy), VERIF_TIER="quick", VERIF_SEED="1")
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            out.append("CAUGHT" if r.returncode == 1 and v else "MISSED rc=%d" % r.returncode)
            det = [l for l in r.stdout.splitlines() if l.startswith("replay:") or l.startswith("counter")]
            if det:
                out.append(det[0][:150])
        return p["id"], " | ".join(out)
    finally:
        shutil.rmtree(copy, ignore_errors=True)


def record(i, msg):
    """which check catches which change, for DESIGN.md"""
    import re

    known = json.loads(RESULTS.read_text()) if RESULTS.exists() else {}
    m = re.search(r"counterexample \((\w+)", msg)
    known[i] = {"caught": "CAUGHT" in msg, "harness": m.group(1) if m else None}
    RESULTS.write_text(json.dumps(known, indent=1, sort_keys=True) + "\n")


def main():
    plants = runpy.run_path(sys.argv[1])["PLANTS"]
    ids = set(a for a in sys.argv[2:] if not a.startswith("-"))
    check = "--no-check" not in sys.argv
    plants = [p for p in plants if not ids or p["id"] in ids]
    with ThreadPoolExecutor(2) as ex:
        for i, msg in ex.map(lambda p: one(p, check), plants):
            print(i, msg, flush=True)
            if check:
                record(i, msg)


main()
