"""Regenerate the per-property section of DESIGN.md from meta.py (between the markers)."""
import os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from ripplecheck import meta
from ripplecheck.props import CHECKS, EXPLAIN
out = ["<!-- properties -->", "## Properties and how each is decided", ""]
for pid, m in sorted(meta.PROPS.items()):
    if pid in CHECKS:
        out += ["### %s %s" % (pid, m["title"]), "", m["statement"], "", "*Decided by:* %s." % EXPLAIN[pid], "", m["explain"], "",
                "*Why tests cannot:* " + m["why"], ""]
na = [(p, m) for p, m in sorted(meta.PROPS.items()) if m["na"]]
if na:
    out += ["## Not applicable to static analysis", ""] + ["- **%s %s**: %s" % (p, m["title"], m["na"]) for p, m in na] + [""]
out.append("<!-- end properties -->")
import json
rows = ["<!-- seeds -->", "| change | property | what it breaks | needs |", "| --- | --- | --- | --- |"]
SD = os.path.join(ROOT, "seeded")
for b in sorted(os.listdir(SD)):
    m = json.load(open(os.path.join(SD, b, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (b, m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")))
rows.append("<!-- end seeds -->")
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
a, b = s.find("<!-- properties -->"), s.find("<!-- end properties -->")
new = "\n".join(out)
s = s[:a] + new + s[b + len("<!-- end properties -->"):] if a >= 0 else s + new + "\n"
a, b = s.find("<!-- seeds -->"), s.find("<!-- end seeds -->")
new = "\n".join(rows)
s = s[:a] + new + s[b + len("<!-- end seeds -->"):] if a >= 0 else s + new + "\n"
open(p, "w").write(s)
