#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one source, so that they stay in step."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), technique="", note="", claimed=True, reason=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  observe=observe, state=state, technique=technique, note=note, claimed=claimed, reason=reason))


B = "bland/bland/"
exec(open(os.path.join(V, "tools", "properties_src.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                         "observe_at": p["observe"], "hook_needed": None}}
        if p["state"]:
            d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        f.write(json.dumps(d) + "\n")

have = {p["id"] for p in P if p["claimed"] and os.path.exists(os.path.join(V, "vf", "props", p["id"].lower() + ".py"))}
m = {"version": 1, "setup_cmd": "./build.sh",
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"],
                 "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                 "technique": p["technique"], "level": "model_checking", "level_note": p["note"]}
                for p in P if p["id"] in have],
     "not_applicable": [{"property": p["id"], "reason": p["reason"] or "its check is not built yet"} for p in P if p["id"] not in have],
     "notes": "TLA+ specifications in spec/, checked with TLC; the harness in harness/ binds them to /repo. No hooks in /repo."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(have), "claimed")
