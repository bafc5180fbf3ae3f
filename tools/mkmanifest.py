#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has a props/<id>.py."""
import json, os
H=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
NA={}
checks=[];na=[]
for l in open(os.path.join(H,"properties.jsonl")):
    p=json.loads(l); i=p["id"]
    if os.path.exists(os.path.join(H,"props",i.lower()+".py")):
        checks.append({"property":i,"quick_cmd":"./check.py %s --tier quick"%i,"thorough_cmd":"./check.py %s --tier thorough"%i,
          "technique":"concolic symbolic execution of the real Python code, path feasibility and obligations decided by z3",
          "level":"other",
          "level_note":"Within the stated bounds every path of the instrumented source of /repo is executed and every obligation is discharged by z3 (pc and not obligation unsat) over all symbolic leaf values; counterexamples are replayed on the unmodified code before they count. Trusts the instrumenter and the models of str/int/Decimal operations, the ANTLR runtime and generated parser (executed, with a symbolic lexing front end), and z3. Bounds and anything left unexplored are in the evidence file."})
    else: na.append({"property":i,"reason":NA.get(i,"its check is not built yet")})
json.dump({"version":1,"setup_cmd":"./check.py --selftest","checks":checks,"not_applicable":na,
 "notes":"No hooks in /repo: the checks instrument the sources at import time. Run from /verif; needs /opt/venv (the repository's environment) and z3 from /opt/veriftools/pyvenv."},open(os.path.join(H,"MANIFEST.json"),"w"),indent=1)
print(len(checks),len(na))
