#!/usr/bin/env python3-vt
"""Writes DESIGN.md from the text below, the harness tables in props/, known-findings.json, the newest evidence and seeded/.

Run with python3-vt after changes to any of them (no check needs it)."""
import glob
import importlib
import json
import os
import sys

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)

INTRO = open(os.path.join(H, "tools", "design_intro.md")).read()
OUTRO = open(os.path.join(H, "tools", "design_outro.md")).read()
PER = {}
for block in open(os.path.join(H, "tools", "design_props.md")).read().split("\n## ")[1:]:
    head, body = block.split("\n", 1)
    PER[head.strip()] = body.strip()


def harnesses(i):
    import sx.instrument  # noqa
    return importlib.import_module("props." + i.lower())


def main():
    import sx.instrument as instrument
    if hasattr(instrument, "install"):
        instrument.install()
    props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
    known = json.load(open(os.path.join(H, "known-findings.json")))["findings"]
    try:
        results = json.load(open(os.path.join(H, "tools", "seeded-results.json")))
    except OSError:
        results = {}
    plants = {}
    for d in sorted(glob.glob(os.path.join(H, "seeded", "*", "meta.json"))):
        m = json.load(open(d))
        m["id"] = os.path.basename(os.path.dirname(d))
        plants.setdefault(m["property"], []).append(m)
    out = [INTRO.strip(), "\n\n# The properties\n"]
    for p in props:
        i = p["id"]
        m = harnesses(i)
        out.append("\n## %s: %s\n" % (i, p["title"]))
        out.append(PER[i] + "\n")
        out.append("\nHarnesses and bounds:\n")
        for h in m.HARNESSES:
            out.append("- `%s`: %s" % (h.name, h.bounds))
            o = getattr(h, "outside", None)
            if o:
                out.append("  (outside: %s)" % o)
        for a in getattr(m, "ASSUMPTIONS", []):
            out.append("- Assumed: " + a)
        try:
            e = json.load(open(os.path.join(H, "evidence", i + ".json")))
            out.append("\nCost (%s, 8 cores): about %d s." % (e["tier"], round(e["wall_s"])))
        except OSError:
            pass
        fx = [k for k in known if k["property"] == i]
        if fx:
            out.append("\nDefects found in the pinned code:")
            for k in fx:
                w = k["what"].split(" ", 3)[3] if k["status"] == "fixed" else k["what"]
                out.append("- %s %s" % ("fixed in %s:" % k["commit"] if k["status"] == "fixed" else "recorded, not repaired:", w))
        if i in plants:
            out.append("\nPlanted bugs:")
            for b in plants[i]:
                r = results.get(b["id"], {})
                out.append("- `%s` (%s): %s" % (b["id"], ("caught by `%s`" % (r.get("harness") or i)) if r.get("caught") else "MISSED" if r else "not run", b["what_it_breaks"]))
        out.append("")
    out.append(OUTRO.strip())
    open(os.path.join(H, "DESIGN.md"), "w").write("\n".join(out).replace("\n\n\n", "\n\n").rstrip() + "\n")


main()
