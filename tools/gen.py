#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and lib/checks.py."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(ROOT, "lib"), os.path.join(ROOT, "tools")]
import props, checks, na

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in props.PR:
        f.write(json.dumps(p) + "\n")
man = {
    "version": 1,
    "setup_cmd": "sh tools/setup.sh",
    "hooks": {"guard": "DRPM_VERIFY",
              "enable": "goto-cc/gcc -DDRPM_VERIFY plus -DDRPM_VERIFY_<SIZE>=n; each harness in lib/checks.py lists the sizes it sets",
              "source_commits": na.HOOKS},
    "checks": [], "not_applicable": [],
    "notes": "All checks: python3 lib/driver.py <property>; see DESIGN.md.",
}
for p in props.PR:
    i = p["id"]
    if i in checks.PROPS:
        c = checks.PROPS[i]
        man["checks"].append({"property": i, "quick_cmd": f"python3 lib/driver.py {i}",
                              "thorough_cmd": f"python3 lib/driver.py {i} --tier thorough",
                              "evidence_file": f"evidence/{i}.json", "technique": c.technique, "level": c.level,
                              "level_note": c.level_note})
    else:
        man["not_applicable"].append({"property": i, "reason": na.NA.get(i, "check not built yet")})
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
rows = ["| property | harness | sources | bounds | stubs |", "|---|---|---|---|---|"]
for i, c in sorted(checks.PROPS.items()):
    rows.append(f"| **{i}** | | | {c.level_note.replace('|', '/')} | |")
    for h in c.harnesses:
        rows.append(f"| {i} | {h.name} | {' '.join(h.repo) or 'included by the harness'} | {h.bounds.replace('|', '/')} | {'; '.join(sorted(set(x.split(' (')[0] for x in h.stubs)))} |")
with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
    f.write(open(os.path.join(ROOT, "tools/design_head.md")).read() + open(os.path.join(ROOT, "tools/design_tail.md")).read() + "\n".join(rows) + "\n")
print(len(man["checks"]), "checks,", len(man["not_applicable"]), "not applicable")
