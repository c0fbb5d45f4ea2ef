"""Write DESIGN.md: tools/design_head.md, one section per property (from properties.jsonl, the
check's own docstring/BOUNDS/ASSUME and tools/design_notes.json), the defects found and the table of planted bugs."""
import ast, glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
notes = json.load(open(V + "/tools/design_notes.json"))
kf = json.load(open(V + "/known_findings.json"))
wall = {}
for f in glob.glob(V + "/evidence/P*.json"):
    e = json.load(open(f))
    wall[e["property"]] = (e["wall_s"], e["coverage"], e["tier"])
caught = json.load(open(V + "/tools/seeded_results.json"))
out = [open(V + "/tools/design_head.md").read().rstrip(), "", "## Properties and how each is decided", ""]
for p in props:
    c = p["id"]
    src = open("%s/checks/%s.py" % (V, c)).read()
    t = ast.parse(src)
    g = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("BOUNDS", "ASSUME", "PRELOAD"):
            try:
                g[n.targets[0].id] = eval(compile(ast.Expression(n.value), c, "eval"), dict(g))
            except Exception:
                pass
    out += ["### %s %s" % (c, p["title"]), "", "*Specified:* " + p["statement"], "", "*Harness:* " + ast.get_docstring(t).replace("\n", " ") + " Real modules executed: " + ", ".join("`%s`" % m for m in g.get("PRELOAD", [])) + ".", ""]
    if notes.get(c):
        out += ["*Why the tests cannot settle it / notes:* " + notes[c], ""]
    out += ["*Bounds:* " + g.get("BOUNDS", ""), ""]
    if g.get("ASSUME"):
        out += ["*Assumed:* " + "; ".join(g["ASSUME"]) + ".", ""]
    if c in wall:
        w, cov, tier = wall[c]
        out += ["*Cost (%s, 8 cores):* %.0f s, %d paths, %d solver queries." % (tier, w, cov["states"], cov["transitions"]), ""]
    fx = [k for k in kf if k["property"] == c]
    if fx:
        out += ["*Genuine defects:*"] + ["- %s (%s)" % (k["what"].split(" ", 3)[-1] if k["kind"] == "fixed" else k["what"], ("repaired in `%s`" % k["commit"]) if k["kind"] == "fixed" else "recorded") for k in fx] + [""]
out += ["## Planted bugs", "", "Each was written from the property text and the code, validated with `tools/seedcheck.sh` (demo passes on the clean tree, fails with the change; stable tests pass with the change).", "",
        "| id | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    out.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], caught.get(i, "?")))
out += ["", open(V + "/tools/design_tail.md").read().rstrip(), ""]
open(V + "/DESIGN.md", "w").write("\n".join(out))
print(len(out), "lines")
