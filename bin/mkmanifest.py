"""Writes MANIFEST.json from properties.jsonl and harness/checks.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(os.path.join(V, "harness", "checks.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
ids = [p["id"] for p in props]
m = dict(version=1, setup_cmd="python3 bin/setup.py",
         hooks=dict(guard="(none)", enable="no hooks in /repo: the checks build the library with sanitizers and --wrap from outside", source_commits=[]),
         checks=[], not_applicable=[])
for i in ids:
    if i in checks:
        c = checks[i]
        m["checks"].append(dict(property=i, quick_cmd="bin/check %s --tier quick" % i, thorough_cmd="bin/check %s --tier thorough" % i,
                                technique=c["technique"], level=c.get("level", "exploration"), level_note=c["note"]))
    else:
        m["not_applicable"].append(dict(property=i, reason="no check has been built for it yet"))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
