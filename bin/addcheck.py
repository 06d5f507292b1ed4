#!/usr/bin/env python3
"""addcheck.py Cxx driver quick thorough technique [note] [k=v ...]"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "../harness/checks.json")
d = json.load(open(p))
pid, drv, q, t, tech = sys.argv[1:6]
note = sys.argv[6] if len(sys.argv) > 6 else "holds on the executions observed; trusts the harness model"
d[pid] = dict(driver=drv, src=["dis.cc"], cases=dict(quick=int(q), thorough=int(t)), technique=tech, note=note)
for kv in sys.argv[7:]:
    k, v = kv.split("=", 1)
    d[pid][k] = json.loads(v)
json.dump(dict(sorted(d.items())), open(p, "w"), indent=1)
