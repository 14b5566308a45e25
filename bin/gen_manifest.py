#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the definitions below (run by hand, committed)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "crates/mega-evm/src/"

def P(id, title, statement, over, text, why, files, mech, level="exploration", note="", observe=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                mech=mech, level=level, note=note, observe=observe or [])

PROPS = []
exec(open(os.path.join(ROOT, "bin", "props_def.py")).read())

NA = json.load(open(os.path.join(ROOT, "bin", "not_applicable.json")))

lines, checks = [], []
for p in PROPS:
    assert len(p["title"]) <= 80, p["title"]
    lines.append(json.dumps({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["text"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": [S + f if not f.startswith("/") else f[1:] for f in p["files"]],
                    "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                    "observe_at": p["observe"], "hook_needed": None},
    }))
    checks.append({
        "property": p["id"],
        "quick_cmd": f"bash check.sh {p['id']} quick",
        "thorough_cmd": f"bash check.sh {p['id']} thorough",
        "technique": "deterministic simulation with fault injection: seeded search over schedules, faults and histories",
        "level": p["level"],
        "level_note": p["note"],
    })
for n in NA:
    lines.append(json.dumps(n["def"]))
open(os.path.join(ROOT, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
m = {"version": 1, "setup_cmd": "bash bin/build.sh && bash bin/build_st.sh",
     "hooks": {"guard": "none", "enable": "no hooks: the existing Database, SaltEnv, OracleEnv, Inspector and block-executor seams suffice; the checks mirror /repo's crates into /verif/build and build them unmodified, except that in the mirrored state-test crate the path std is replaced by the simulated standard library of strun/simstd", "source_commits": []},
     "checks": checks,
     "not_applicable": [{"property": n["def"]["id"], "reason": n["reason"]} for n in NA]}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
