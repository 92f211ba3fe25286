#!/usr/bin/env python3
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = []
def fixed(prop, commit, what):
    assert "{" not in what and "}" not in what
    out.append(dict(status="fixed", property=prop, commit=commit, record="fixed: property=%s %s %s" % (prop, commit, what)))
def known(id, prop, what):
    assert "{" not in what and "}" not in what
    out.append(dict(id=id, status="known", property=prop, what=what))
exec(open(os.path.join(V, "tools", "findings_list.py")).read())
json.dump(out, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
