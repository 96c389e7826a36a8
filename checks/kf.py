"""kf.py PROPERTY ID COMMIT WHAT: record a repaired defect."""
import json, os, sys
f = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json")
d = json.load(open(f))
p, i, c, w = sys.argv[1:5]
d.append(dict(property=p, id=i, status="fixed", what="fixed: property=%s %s %s" % (p, c, w)))
json.dump(d, open(f, "w"), indent=1)
