#!/usr/bin/env python3
"""Generates /verif/MANIFEST.json. Claimed: every property with harness files. Run: python3 tools/manifest.py"""
import json, os, glob
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(here+'/properties.jsonl')]
NA={
}
NOTES={}
exec(open(here+'/tools/notes.py').read()) if os.path.exists(here+'/tools/notes.py') else None
checks=[];na=[]
for p in props:
    i=p['id']
    has=[f for f in glob.glob(here+'/harness/pkgs/**/*.go',recursive=True) if os.path.basename(f).startswith(i.lower())]
    if has and i not in NA:
        checks.append(dict(property=i,quick_cmd=f"./check {i} quick",thorough_cmd=f"./check {i} thorough",
            evidence_file=f"evidence/{i}.json",
            technique="symbolic execution of the real Go code (SSA) with SMT (z3) deciding every branch and assertion; counterexamples replayed natively",
            level="model_checking",
            level_note=NOTES.get(i,"Holds for every value, call order, schedule and fault within the bounds stated in the harness comments (listed in evidence coverage.harnesses); bounds and stubs in DESIGN.md.")))
    else:
        na.append(dict(property=i,reason=NA.get(i,"No check built yet.")))
m=dict(version=1,setup_cmd="./check --setup",checks=checks,not_applicable=na,
  notes="Engine: /verif/engine (Go). Harnesses: /verif/harness. No hooks in /repo: harnesses are overlaid at check time.")
json.dump(m,open(here+'/MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(na),'n/a')
