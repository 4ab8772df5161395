"""Regenerate properties.jsonl and MANIFEST.json from ripplecheck/meta.py and the registered checks."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from ripplecheck import meta
from ripplecheck.props import CHECKS as REGISTRY, EXPLAIN

lines, checks, na = [], [], []
for pid, m in sorted(meta.PROPS.items()):
    if pid not in REGISTRY and not m["na"]:
        continue
    lines.append(json.dumps({
        "id": pid, "title": m["title"], "statement": m["statement"],
        "quantifier": {"over": m["over"], "text": m["text"]}, "why_tests_cant": m["why"],
        "anchors": {"files": m["files"], "mechanism": [{"name": a, "where": b} for a, b in m["mech"]], "observe_at": m["observe"], "hook_needed": None}}))
    assert len(m["title"]) <= 80, (pid, len(m["title"]))
    assert m["statement"].count(". ") <= 2, pid
    if m["na"]:
        na.append({"property": pid, "reason": m["na"]})
    else:
        checks.append({
            "property": pid, "quick_cmd": "python3 -m ripplecheck %s --tier quick" % pid,
            "thorough_cmd": "python3 -m ripplecheck %s --tier thorough" % pid,
            "technique": "static analysis: " + EXPLAIN[pid],
            "level": "other", "level_note": m["note"] or meta.NOTE})
open(os.path.join(ROOT, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q ripplecheck", "checks": checks, "not_applicable": na,
           "notes": "Static analysis only: the deciding step lowers /repo's source to a value graph; see DESIGN.md."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
