#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props/registry.py."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "props"))
sys.dont_write_bytecode = True
from registry import PROPS
lines, checks = [], []
for pid in sorted(PROPS):
    p = PROPS[pid]
    assert len(p["title"]) <= 80, p["title"]
    a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
    if p["hook"]:
        a["hook_needed"] = p["hook"]
    if p["observe"]:
        a["observe_at"] = p["observe"]
    lines.append(json.dumps(dict(id=pid, title=p["title"], statement=p["statement"],
                                 quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"], anchors=a)))
    checks.append(dict(property=pid, quick_cmd="python3 run.py %s --tier quick" % pid,
                       thorough_cmd="python3 run.py %s --tier thorough" % pid, evidence_file="evidence/%s.json" % pid,
                       technique=p["technique"], level="exploration", level_note=p["note"]))
open(os.path.join(HERE, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep", "^verif:"], capture_output=True, text=True).stdout.split()
m = dict(version=1, setup_cmd="python3 run.py --selftest", checks=checks,
         hooks=dict(guard="MJS_VERIF_HOOKS", enable="run.py compiles /repo/src with -DMJS_VERIF_HOOKS", source_commits=hook),
         not_applicable=[],
         notes="All checks are generated-input search against an explicit oracle; see DESIGN.md. Each check compiles /repo/src itself.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(lines), "properties")
