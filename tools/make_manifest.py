"""Writes MANIFEST.json from the properties and the checks present."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(V, "tools", "notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    f = os.path.join(V, "checks", i.lower() + ".py")
    if os.path.exists(f):
        src = open(f, encoding="utf-8").read()
        m = re.search(r'^LEVEL = "(\w+)"', src, re.M)
        checks.append(dict(property=i, quick_cmd="bash run.sh " + i, thorough_cmd="VERIF_TIER=thorough bash run.sh " + i,
                           evidence_file="evidence/%s.json" % i,
                           technique="runtime monitoring: " + NOTES[i][0],
                           level=m.group(1) if m else "exploration", level_note=NOTES[i][1]))
    else:
        na.append(dict(property=i, reason="monitor not built yet"))
man = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na)
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
