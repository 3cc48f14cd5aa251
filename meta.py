#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run `python3 meta.py` after editing."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V + "/props"); sys.dont_write_bytecode = True
import config
PROPS, NA = [], []
def P(id, title, statement, over, text, why, files, mech, observe, note, technique=None, level=None):
    assert len(title) <= 80, (id, len(title)); assert statement.count(". ") <= 2, id
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, note=note, technique=technique, level=level))
exec(open(V + "/props/statements.py").read())
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], observe_at=p["observe"], hook_needed=None))) + "\n")
checks = []
for p in PROPS:
    if p["id"] not in config.C: continue
    c = config.C[p["id"]]
    checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s" % p["id"], thorough_cmd="python3 check.py %s --tier thorough" % p["id"], evidence_file="evidence/%s.json" % p["id"],
        technique=p["technique"] or "property-based testing: coverage-guided generated inputs against an independent reference model, with shrinking", level=p["level"] or c["level"], level_note=p["note"]))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=NA + [dict(property=p["id"], reason="check not built") for p in PROPS if p["id"] not in config.C])
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
print(len(PROPS), "properties,", len(checks), "checks")
