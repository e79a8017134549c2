import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
sys.path.insert(0, os.path.join(root, "vf"))
import props_src as S
import props as V
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in sorted(S.P, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
na = getattr(S, "NA", {})
checks = []
for p in sorted(S.P, key=lambda p: p["id"]):
    if p["id"] in na:
        continue
    v = V.PROPS[p["id"]]
    cmd = v.get("cmd", "python3 vf/check.py %s" % p["id"])
    checks.append(dict(property=p["id"], quick_cmd=cmd + " --tier quick", thorough_cmd=cmd + " --tier thorough",
                       evidence_file="evidence/%s.json" % p["id"], technique=v.get("technique", V.TECH), level=v["level"],
                       level_note=v.get("note", V.NOTE)))
m = dict(version=1, setup_cmd="python3 -m py_compile vf/check.py", checks=checks,
         not_applicable=[dict(property=k, reason=r) for k, r in sorted(na.items())])
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "n/a")
