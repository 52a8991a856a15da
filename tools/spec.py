#!/usr/bin/env python3
# Source of properties.jsonl and MANIFEST.json (run: python3 tools/spec.py).
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection (seeded search over schedules and fault sequences)"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, note=None, observe=None, na=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    assert len(title) <= 80, title
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a}, note, na))
exec(open(os.path.join(V, "tools", "props_text.py")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p, n, na in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "./build.sh", "checks": [], "not_applicable": []}
for p, n, na in P:
    if na: m["not_applicable"].append({"property": p["id"], "reason": na}); continue
    m["checks"].append({"property": p["id"], "quick_cmd": f"./check {p['id']} quick", "thorough_cmd": f"./check {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json", "technique": T, "level": "exploration", "level_note": n})
m["notes"] = "Every check builds the simulator from /repo's working tree first (build.sh, about 20 s when nothing is cached). No hooks are compiled into /repo: the seams are the instrumented build (-fsanitize=thread callbacks provided by the simulator), pthread, clock and libc file functions, all interposed at link time."
with open(os.path.join(V, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
