"""mkseed.py SPEC.py: write seeded/<id>/ (patch.diff, demo.sh, demo.py, meta.json) from a spec
with ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (python source)."""
import sys, os, json, subprocess, shutil, tempfile
spec = {}
exec(open(sys.argv[1]).read(), spec)
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.join(V, "seeded", spec["ID"])
os.makedirs(d, exist_ok=True)
t = tempfile.mkdtemp()
try:
    diff = b""
    texts = {}
    for f, old, new in spec["EDITS"]:
        s = texts.get(f) or open("/repo/" + f, newline="").read()
        if "\r\n" in s:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        assert s.count(old) == 1, (f, s.count(old), old)
        texts[f] = s.replace(old, new)
        base = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^fix:", "--invert-grep", "-1"], capture_output=True, text=True).stdout.strip()
        orig = set(subprocess.run(["git", "-C", "/repo", "show", base + ":" + f], capture_output=True, text=True).stdout.replace("\r", "").split("\n"))
        keep = set(new.replace("\r", "").split("\n"))
        for l in old.replace("\r", "").split("\n"):
            assert l in keep or l in orig, "not an original line: " + l
    for f, s in texts.items():
        os.makedirs(os.path.join(t, "a", os.path.dirname(f)), exist_ok=True)
        os.makedirs(os.path.join(t, "b", os.path.dirname(f)), exist_ok=True)
        open(os.path.join(t, "a", f), "w", newline="").write(open("/repo/" + f, newline="").read())
        open(os.path.join(t, "b", f), "w", newline="").write(s)
        diff += subprocess.run(["diff", "-u", "a/" + f, "b/" + f], cwd=t, capture_output=True).stdout
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
finally:
    shutil.rmtree(t)
open(os.path.join(d, "demo.py"), "w").write(spec["DEMO"].lstrip())
open(os.path.join(d, "demo.sh"), "w").write('''#!/bin/bash
# cwd /repo; exit 0 when the property holds
. /opt/vp/env.sh
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d)"
PYTHONPATH="$PWD" python -W ignore "$here/demo.py" "$work"
rc=$?
rm -rf "$work"
exit $rc
''')
json.dump(dict(property=spec["PROP"], needs=spec["NEEDS"], what_it_breaks=spec["BREAKS"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
print(d)
