#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json."""
import json, os, subprocess
V = os.path.dirname(os.path.abspath(__file__))
from metadata import PROPS, NA, HOOK_COMMITS  # noqa
lines, checks = [], []
for p in PROPS:
    lines.append(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}))
    assert len(p["title"]) <= 80, p["id"]
    if "technique" in p:
        checks.append({"property": p["id"], "quick_cmd": "python3 run_check.py %s --tier quick" % p["id"],
                       "thorough_cmd": "python3 run_check.py %s --tier thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": p["technique"], "level": "exploration", "level_note": p["level_note"]})
claimed = {c["property"] for c in checks}
na = [{"property": p["id"], "reason": NA[p["id"]]} for p in PROPS if p["id"] not in claimed]
m = {"version": 1, "setup_cmd": "sh setup.sh",
     "hooks": {"guard": "PHASAR_SIM_HOOKS", "enable": "run_check.py compiles the sources of /repo it needs with -DPHASAR_SIM_HOOKS", "source_commits": HOOK_COMMITS},
     "checks": checks, "not_applicable": na,
     "notes": "Every check compiles what it needs from /repo's working tree into /verif/.build (git-ignored) and runs a seeded deterministic simulation; see DESIGN.md."}
open(os.path.join(V, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
open(os.path.join(V, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
