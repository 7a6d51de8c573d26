#!/usr/bin/env python3
# writes properties.jsonl and MANIFEST.json from spec/properties.py and engine/props.py
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H); sys.path[:0] = [H, V + "/spec"]
import properties as S, props
ln = []; checks = []; na = []
for p in S.P:
    a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
    if p["state"]: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
    if p["observe"]: a["observe_at"] = p["observe"]
    a["hook_needed"] = None
    ln.append(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}))
    if p["na"]: na.append({"property": p["id"], "reason": p["na"]})
    elif p["id"] in props.PROPS:
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"], "technique": p["tech"], "level": "other", "level_note": p["note"]})
    else: na.append({"property": p["id"], "reason": "no check built yet"})
open(V + "/properties.jsonl", "w").write("\n".join(ln) + "\n")
json.dump({"version": 1, "setup_cmd": "bash engine/build.sh", "checks": checks, "not_applicable": na, "notes": S.NOTES if hasattr(S, "NOTES") else "see DESIGN.md"}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(ln), "properties", len(checks), "checks", len(na), "not applicable")
