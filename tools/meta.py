#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
def prop(id, title, statement, over, text, why, files, mech, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, observe=observe))
def na(id, reason): NA.append(dict(property=id, reason=reason))
exec(open(os.path.join(V, "tools", "props.py")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
        if p["observe"]: a["observe_at"] = p["observe"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=" ".join(p["statement"].split()), quantifier=dict(over=p["over"], text=" ".join(p["text"].split())), why_tests_cant=" ".join(p["why"].split()), anchors=a)) + "\n")
m = dict(version=1, setup_cmd="./setup.sh",
         checks=[dict(property=p["id"], quick_cmd="./run.sh %s quick" % p["id"], thorough_cmd="./run.sh %s thorough" % p["id"],
                      technique="property-based testing", level="exploration", level_note=" ".join(p["note"].split())) for p in P if p["id"] not in {x["property"] for x in NA}],
         not_applicable=NA)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
