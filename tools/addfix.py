import json, sys
p = '/verif/known_findings.json'
d = json.load(open(p))
prop, c, what = sys.argv[1:4]
d.append(dict(property=prop, kind="fixed", commit=c, what="fixed: property=%s %s %s" % (prop, c, what)))
open(p, 'w').write("[\n" + ",\n".join(" " + json.dumps(x) for x in d) + "\n]\n")
