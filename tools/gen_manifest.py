import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "stateless explicit enumeration of all choice sequences (inputs, options%s) executing the real code, each compared with a reference model"
NOTES = json.load(open(os.path.join(ROOT, "tools", "notes.json")))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
na = []
for p in props:
    i = p["id"]
    if not os.path.exists(os.path.join(ROOT, "mc", "props", i.lower() + ".py")):
        na.append(dict(property=i, reason="check under construction"))
        continue
    n = NOTES.get(i, {})
    checks.append(dict(
        property=i, quick_cmd="./check %s quick" % i, thorough_cmd="./check %s thorough" % i,
        evidence_file="evidence/%s.json" % i,
        technique=n.get("technique", T % n.get("extra", "")), level="model_checking",
        level_note=n.get("note", "Exhaustive within the alphabets and deviation bounds reported in the evidence file; nothing is claimed beyond them.")))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo: third-party functions are replaced from outside (mc/env.py). Repairs of defects are the fix: commits listed in known_findings.json.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
