"""Write a seeded change: mkseed.py SPEC.py   (development helper; no check reads /verif/seeded).

SPEC.py defines ID, PROPERTY, EDITS=[(file, old, new)], DEMO (python source), NEEDS, BREAKS."""
import difflib, json, os, stat, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for spec in sys.argv[1:]:
    g = {}
    exec(compile(open(spec).read(), spec, "exec"), g)
    for s in g["SPECS"]:
        d = os.path.join(ROOT, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        files = {}
        for f, old, new in s["edits"]:
            src = files.get(f) or open("/repo/" + f).read()
            assert src.count(old) >= 1, (s["id"], f, "not found", old)
            assert src.count(old) == 1, (s["id"], f, "ambiguous", old)
            files[f] = src.replace(old, new)
        out = ""
        for f, new in files.items():
            old = open("/repo/" + f).read()
            out += "diff --git a/%s b/%s\n" % (f, f)
            out += "".join(difflib.unified_diff(old.splitlines(True), new.splitlines(True), "a/" + f, "b/" + f))
        open(os.path.join(d, "patch.diff"), "w").write(out)
        open(os.path.join(d, "demo.py"), "w").write(s["demo"].lstrip("\n"))
        sh = os.path.join(d, "demo.sh")
        open(sh, "w").write('#!/bin/bash\nexport JAX_PLATFORMS=cpu\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
        os.chmod(sh, 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        print("wrote", s["id"])
