#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list. Run in /verif after editing."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
LY = "legacy/Fierro_V0/src/Yaml-Serializable"
MP = "apps/multiphysics/src"


def prop(pid, title, statement, over, text, why, files, mech, observe, technique=None, note=None, na=None, py="python3-vt"):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, technique=technique, note=note, na=na, py=py if int(pid[1:]) > 7 else "python3"))


exec(open(os.path.join(V, "tools", "properties_list.py")).read())

ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
checks = [{"property": p["id"], "quick_cmd": "%s checks/%s.py --tier quick" % (p["py"], p["id"].lower()), "thorough_cmd": "%s checks/%s.py --tier thorough" % (p["py"], p["id"].lower()),
           "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in P if not p["na"]]
na = [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]]
json.dump({"version": 1, "setup_cmd": "python3 tools/selftest.py", "hooks": {"guard": "VERIF_HOOKS", "enable": "no hooks were needed: no commit in /repo adds instrumentation", "source_commits": []},
           "checks": checks, "not_applicable": na,
           "notes": "Every check builds what it needs from /repo's working tree in a scratch directory under /tmp and removes it. VERIF_SEED selects the generated cases. Replay: python3 (python3-vt from C08 on) checks/<id>.py --replay <file>. Findings: known_findings.txt. tools/spec.py writes this file."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not applicable")
