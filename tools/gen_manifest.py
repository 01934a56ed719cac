#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/props.py."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "tools")]
from props import PROPS
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hook:"], capture_output=True, text=True).stdout.split()
m = {
    "version": 1,
    "setup_cmd": "python3 -m py_compile check.py tools/props.py",
    "hooks": {"guard": "nanvm_verif", "enable": "RUSTFLAGS='--cfg nanvm_verif' cargo build (harness crate with a path dependency on /repo/nanvm-lib)",
              "source_commits": hooks},
    "checks": [], "not_applicable": [],
    "notes": "check.py builds the monitors in harness/ against /repo's working tree and supervises them; see DESIGN.md. Genuine defects that stay: known-findings.txt.",
}
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
                            "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": "check under construction"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
