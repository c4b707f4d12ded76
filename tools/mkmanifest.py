"""Write MANIFEST.json: one entry for each property that has a module in checks/."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
TECH = {}
exec(open(os.path.join(here, "tools", "manifest_text.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(here, "checks", p.lower() + ".py")) and p in TECH:
        checks.append({"property": p, "quick_cmd": "bash run.sh %s quick" % p, "thorough_cmd": "bash run.sh %s thorough" % p,
                       "technique": TECH[p], "level": "exploration", "level_note": NOTE[p]})
    else:
        na.append({"property": p, "reason": NOT.get(p, "no check has been built for it yet")})
out = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
       "notes": "No hooks: the checks drive /repo's public functions and generated files. Every check runs generated cases "
                "from VERIF_SEED, shrinks a failure with Hypothesis and writes it to evidence/replay/; replay with "
                "'bash run.sh Pxx --replay FILE'."}
json.dump(out, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
