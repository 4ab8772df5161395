"""Try seeded changes in private copies of /repo (development helper): trybug.py [-c] [-j N] ID...

Each copy is bind-mounted over /repo in its own mount namespace: build, tests, demo, and the property's quick check."""
import concurrent.futures, json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith("-")]
checks_only = "-c" in sys.argv
extra = [a[2:] for a in sys.argv if a.startswith("-p")]
jobs = int(([a[2:] for a in sys.argv if a.startswith("-j")] or ["3"])[0])
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def run(ns, cmd, cwd="/repo", timeout=1200):
    sh = "mount --bind %s /repo && cd %s && %s" % (ns, cwd, cmd)
    return subprocess.run(["unshare", "-rm", "bash", "-c", sh], capture_output=True, text=True, timeout=timeout)


def one(i):
    d = os.path.join(ROOT, "seeded", i)
    meta = json.load(open(d + "/meta.json"))
    w = tempfile.mkdtemp(prefix="bug-", dir="/tmp")
    out = [i, meta["property"]]
    try:
        subprocess.run(["cp", "-a", "/repo/.", w + "/repo"], check=True)
        r = w + "/repo"
        if not checks_only:
            x = run(r, "bash %s/demo.sh" % d)
            out.append("demo-clean=%d" % x.returncode)
            if x.returncode:
                out.append(x.stdout[-300:] + x.stderr[-500:])
        a = subprocess.run(["git", "-C", r, "apply", d + "/patch.diff"], capture_output=True, text=True)
        if a.returncode:
            return out + ["PATCH FAILED " + a.stderr]
        if not checks_only:
            x = run(r, "bash /opt/vp/build.sh")
            out.append("build=%d" % x.returncode)
            x = run(r, "bash %s/demo.sh" % d)
            out.append("demo-bug=%d %s" % (x.returncode, (x.stdout + x.stderr).strip().splitlines()[-1:] or ""))
            x = run(r, "bash /opt/vp/test.sh %s/o.json" % w)
            try:
                o = json.load(open(w + "/o.json"))
                ok = set(o.get("passed", o if isinstance(o, list) else []))
                miss = STABLE - ok
                out.append("tests-missing=%d %s" % (len(miss), sorted(miss)[:3]))
            except Exception as e:
                out.append("tests? %r %s" % (e, x.stdout[-300:]))
        shutil.rmtree(r + "/../v", ignore_errors=True)
        subprocess.run("cp -a %s %s/v && rm -rf %s/v/seeded %s/v/.git" % (ROOT, w, w, w), shell=True, check=True)
        for p in extra or [meta["property"]]:
            x = run(r, "python3 -m ripplecheck %s" % p, cwd=w + "/v")
            v = [l for l in x.stdout.splitlines() if not l.startswith("VIOLATION")]
            out.append("CHECK %s=%d %s" % (p, x.returncode, " | ".join(v)[:500] + x.stderr[-300:]))
    except Exception as e:
        out.append("ERR %r" % e)
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return out


with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
    for o in ex.map(one, ids):
        print("\n   ".join(str(x) for x in o), flush=True)
