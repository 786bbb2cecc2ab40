"""Writes MANIFEST.json from the registry and the notes below (python3 lib/manifest_gen.py)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry, notes
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        t, n = notes.NOTES[i]
        checks.append(dict(property=i, quick_cmd="VERIF_TIER=quick python3 check.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % i,
                           evidence_file="evidence/%s.json" % i, technique=t, level="exploration", level_note=n))
    else:
        na.append(dict(property=i, reason=notes.NA.get(i, "the monitor for this property is not built yet")))
m = dict(version=1, setup_cmd="python3 lib/setup.py", checks=checks, not_applicable=na)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
