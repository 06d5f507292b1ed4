"""Builds the sanitized library and every driver once: shows early that the offline build works."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
checks = json.load(open(os.path.join(vbuild.VERIF, "harness", "checks.json")))
done = set()
for c in checks.values():
    k = (c["driver"], c.get("kind", "asan"))
    if k not in done:
        done.add(k)
        vbuild.build_lib(k[1], tuple(c.get("targets", ["disir_static"])))
        vbuild.build_driver(c["driver"], k[1], c.get("src", []), c.get("ldflags", []))
print("built %d driver(s)" % len(done))
