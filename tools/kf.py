"""Development aid: kf.py fixed <prop> <commit> <what> | kf.py known <prop> <id> <kind> <trace.json or -> <what>"""
import json, sys
p = "/verif/known_findings.json"
d = json.load(open(p))
if sys.argv[1] == "fixed":
    _, _, prop, commit, what = sys.argv
    d["findings"].append({"property": prop, "status": "fixed", "commit": commit, "what": "fixed: property=%s %s %s" % (prop, commit, what)})
else:
    _, _, prop, kid, kind, trace, what = sys.argv
    e = {"property": prop, "id": kid, "status": "known", "kind": kind, "what": what}
    if trace != "-":
        e["trace"] = json.loads(trace)
    d["findings"].append(e)
json.dump(d, open(p, "w"), indent=1)
open(p, "a").write("\n")
