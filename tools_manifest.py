"""Writes MANIFEST.json (run by hand when the claims change)."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open("properties.jsonl")]
lev = json.load(open("levels.json")) if os.path.exists("levels.json") else {}
DEF = ["exploration", "contracts of the real code evaluated at run time on seeded inputs (bounded)",
       "Bounded: the contracts are evaluated on sampled inputs against independent oracles; no proof."]
checks = []
for p in props:
    i = p["id"]
    l, t, n = lev.get(i, DEF)
    checks.append(dict(property=i, quick_cmd="./check.py %s --tier quick" % i, thorough_cmd="./check.py %s --tier thorough" % i,
                       evidence_file="evidence/%s.json" % i, technique=t, level=l, level_note=n))
m = dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import numpy, scipy; print(numpy.__version__)'", checks=checks, not_applicable=[],
         notes="See DESIGN.md. Replay files are written to replay/ (not committed). /repo carries only fix: commits, no hooks.")
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
