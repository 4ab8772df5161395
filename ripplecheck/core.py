"""Obligations, reports, evidence and the runner shared by all checks."""
import json
import os
import pickle
import select
import signal
import sys
import time
import traceback
from . import avn, ir
from .interp import Interp, Vec, StaticRaise, Unsupported, N, GRIDS

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, "known_findings.txt")


DEADLINE = time.time() + 660          # an answer is due within 900 s


class OutOfTime(Unsupported):
    pass


class AnalysisBroken(Exception):
    """an anchor disappeared or the analysis could not be carried out"""


def contradictory(c, regs):
    """do the comparisons decided in this sample contradict each other (a < b, b < c, c < a)?

    Samples decide them one by one; real frequencies could not lie like that."""
    w = c.main
    pos = []
    for n, t in list(w.truths.items()):
        if n.op in ("lt", "le") and all(isinstance(a, ir.Node) for a in n.args) and n not in c.gates:
            try:
                a, b = (c(x) for x in n.args)
            except avn.Resample:
                continue
            if isinstance(a, int) and isinstance(b, int):
                pos.append((b - a if t else a - b) % w.p)
    if regs is not None and regs.order is not None and regs.reg.preds:
        from .regions import Bound
        try:
            b = Bound(regs.reg, c)
            if len(b.names) == regs.n:
                pts = [b.names[i] for i in regs.order if isinstance(b.names[i], int)]
                pos += [(y - x) % w.p for i, x in enumerate(pts) for y in pts[i + 1:]] + pts
        except avn.Resample:
            pass
    try:
        from .bench import M
        from .interp import GT_
        k = c(ir.mul(M, GT_))
        pos += [u * k % w.p for u in pos] + [u * w.inv(k) % w.p for u in pos]
    except avn.Resample:
        pass
    s = set(pos)
    return any((-u) % w.p in s or any((-u - v) % w.p in s for v in s) for u in s if u)


def samples(seed, env, regs, roots, cost):
    """contexts whose comparisons do not contradict each other, as far as they are independent of the frequency"""
    free = [n for n in ir.topo(roots) if n.op in ("lt", "le") and not {"f", "f_ref", "f_ref2"} & ir.deps(n)
            and all(isinstance(a, ir.Node) and a is not ir.INF for a in n.args)]
    bps = [x[2] for x in regs.reg.preds] if regs is not None else []
    s, limit = seed, time.time() + 20
    while True:
        for _ in range(120):
            c = avn.Ctx(s, env.pos, env.cons)
            s += 1
            if not free and not bps or time.time() > limit:
                break
            try:
                c.settle(bps + [a for n in free for a in n.args], cost, 200)
                for n in free:
                    c.truth(n)
                if not contradictory(c, regs):
                    break
            except (avn.Undecided, avn.Resample):
                pass
        yield c


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.obl = []            # (rule, construct, status, detail, loc)
        self.notes = []
        self.analysed = set()
        self.min_obl = 1
        self.scope = []          # values the structural rules are looking at
        self.assumptions = []
        self.thorough = tier == "thorough"

    # ---- recording -----------------------------------------------------
    def ok(self, rule, construct, detail=""):
        self.obl.append((rule, construct, "ok", detail, None))

    def bad(self, rule, construct, detail="", loc=None):
        o = self.unmodelled()
        if o is not None:
            self.undecided(rule, construct, "%s, but the value depends on unmodelled %s" % (detail, ir.show(o, 1)))
        else:
            self.obl.append((rule, construct, "violation", detail, loc))

    def unmodelled(self):
        """a call the interpreter has no model of, among the values now under examination"""
        for n in ir.topo([x for x in self.scope if isinstance(x, ir.Node)]):
            if n.op.startswith(OPAQUE):
                return n
        return None

    def undecided(self, rule, construct, detail=""):
        self.obl.append((rule, construct, "undecided", detail, None))

    def expect(self, cond, rule, construct, detail="", loc=None):
        (self.ok if cond else self.bad)(rule, construct, detail if cond else detail, **({} if cond else {"loc": loc}))
        return cond

    def note(self, s):
        self.notes.append(s)

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---- independent obligations in parallel -----------------------------
    def par(self, items, fn):
        """fn(item) for every item, each in a forked process; their obligations are collected in order"""
        items = list(items)
        jobs, out = {}, {}
        todo = list(enumerate(items))

        def start(i, x):
            r, w = os.pipe()
            pid = os.fork()
            if pid:
                os.close(w)
                jobs[r] = (i, pid, [])
                return
            rc = 1
            try:
                os.close(r)
                self.obl, self.notes, self.analysed, self.assumptions = [], [], set(), []
                try:
                    fn(x)
                    res = ("ok", (self.obl, self.notes, self.analysed, self.assumptions))
                except AnalysisBroken as e:
                    res = ("broken", str(e))
                except (avn.Undecided, Unsupported, StaticRaise) as e:
                    self.undecided("analysable", str(x)[:80], unsup(e))
                    res = ("ok", (self.obl, self.notes, self.analysed, self.assumptions))
                except BaseException:
                    res = ("error", traceback.format_exc())
                with os.fdopen(w, "wb") as fh:
                    pickle.dump(res, fh)
                rc = 0
            finally:
                os._exit(rc)
        sys.stdout.flush()
        while todo or jobs:
            while todo and len(jobs) < 8:
                start(*todo.pop(0))
            ready = select.select(list(jobs), [], [], max(0.0, DEADLINE - time.time()))[0]
            if not ready:
                # out of time: what is still running stays undecided
                for i, pid, _ in jobs.values():
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    out[i] = ("error", "out of time")
                for i, _ in todo:
                    out[i] = ("error", "out of time")
                break
            for r in ready:
                d = os.read(r, 1 << 16)
                i, pid, buf = jobs[r]
                if d:
                    buf.append(d)
                    continue
                os.close(r)
                os.waitpid(pid, 0)
                del jobs[r]
                out[i] = pickle.loads(b"".join(buf)) if buf else ("error", "no answer from the worker")
        for i in range(len(items)):
            k, v = out[i]
            if k == "broken":
                raise AnalysisBroken(v)
            if k == "error":
                print(v, file=sys.stderr)
                self.undecided("analysable", str(items[i])[:80], "the analysis gave up: " + v.strip().split("\n")[-1])
                continue
            self.obl += v[0]
            self.notes += [x for x in v[1] if x not in self.notes]
            self.analysed |= v[2]
            self.assumptions += [x for x in v[3] if x not in self.assumptions]

    # ---- equality of value numbers -------------------------------------
    def same(self, rule, construct, pairs, env, k=None, regs=False, states=None, where=None):
        """pairs: [(label, lhs node, rhs node)] must have equal value numbers in every sample.

        regs (ModelRegions): compare in every frequency region where the strain is on
        (None: they could not be determined, so that a difference means nothing)."""
        at = len(self.obl)
        self.blind = regs is None
        regs = regs or None
        r = self._same(rule, construct, pairs, env, k, regs, states, where)
        if not r and any(ir.isfn(n, "log") for n in ir.topo([x for _, a, b in pairs for x in (a, b)])):
            # the second sound model of the logarithm: equality under either of them is equality
            first = self.obl[at:]
            del self.obl[at:]
            avn.LOGMODE[0] = 1
            try:
                r = self._same(rule, construct, pairs, env, k, regs, states, where)
            finally:
                avn.LOGMODE[0] = 0
            if not r:
                self.obl[at:] = first
        return r

    def _same(self, rule, construct, pairs, env, k, regs, states, where):
        roots = [x for _, a, b in pairs for x in (a, b)]
        if regs is not None:
            roots = ir.lift(roots, regs.reg.var)
            pairs = [(l, roots[2 * i], roots[2 * i + 1]) for i, (l, _, _) in enumerate(pairs)]
        if all(a is b for _, a, b in pairs):
            self.ok(rule, construct, "structurally identical")
            return True
        st = states or (regs.states() if regs is not None else [("", None)])
        k = k or (self.n(4, 24) if st[0][1] is None else self.n(2, 8))
        cost = avn.costs(roots + (regs.reg.extra() if regs is not None else []))
        cov, pcov = {}, {}
        sd = [{n for n in ir.topo([x[i] for x in pairs]) if n.op in ("lt", "le")} for i in (1, 2)]
        # predicates only one side uses: seen in every combination with those of the other side
        pair = [(p, q) for i in (0, 1) for p in sorted(sd[i] - sd[1 - i], key=lambda n: n.id)[:12]
                for q in sorted(sd[1 - i] if i == 0 else sd[0] & sd[1], key=lambda n: n.id)[:24]]
        t1 = time.time() + self.n(12, 60)
        try:
            # the operands must be evaluable for the comparison to mean anything
            extra = self.n(14, 40)
            todo, skipped = list(range(k + extra)), 0
            ctxs = samples(self.seed * 100000 + 1, env, regs, roots, cost)
            for j in todo:
                if j >= k + skipped and all(len(v) == 2 for v in cov.values()) and (
                        time.time() > t1 or all(len(v) == 4 for v in pcov.values())):
                    break
                c = next(ctxs)
                # further samples only serve to see every predicate decided both ways
                for lab0, sides in (st if j < k + skipped else st[j % len(st):][:1]):
                    vals = c.settle(roots, cost) if sides is None else regs.enter(c, sides, roots, cost)
                    diff = any(vals[2 * i] != vals[2 * i + 1] for i in range(len(pairs)))
                    odd = (diff or c.main.truths) and contradictory(c, regs)
                    for n, t in c.main.truths.items():
                        if n not in c.gates and n.op in ("lt", "le") and not odd:
                            cov.setdefault(n, set()).add(t)
                    for p, q in pair:
                        u, v = c.main.truths.get(p), c.main.truths.get(q)
                        if u is not None and v is not None and p not in c.gates and q not in c.gates and not odd:
                            pcov.setdefault((p, q), set()).add((u, v))
                    if diff and odd:
                        skipped += 1
                        if skipped > 60:
                            raise avn.Undecided("no sample with consistent comparisons")
                        # another one for the regions not seen yet
                        todo.append(len(todo))
                        break
                    for i, (lab, a, b) in enumerate(pairs):
                        if vals[2 * i] != vals[2 * i + 1]:
                            if c.opaque:
                                o = next(iter(c.opaque))
                                self.undecided(rule, construct, "%s: differs, but depends on unmodelled %s" % (lab, ir.show(o, 1)))
                                return None
                            if self.blind:
                                self.undecided(rule, construct, "%s: the frequency regions are unresolved" % lab)
                                return None
                            self.obl.append((rule, construct, "violation", "%s differ%s" % (lab, " in " + lab0 if lab0 else ""), where or blame(a, b)))
                            return False
        except avn.Undecided as e:
            self.undecided(rule, construct, str(e))
            return None
        both = sum(1 for v in cov.values() if len(v) == 2)
        self.ok(rule, construct, "%d value-number comparisons over %d IR nodes%s; %d predicates, %d seen both ways" % (
            k * len(pairs) * len(st), len(ir.topo(roots)), " in %d frequency regions" % len(st) if st[0][1] is not None else "",
            len(cov), both))
        return True

    # ---- finish ------------------------------------------------------------
    def finish(self, t0, known):
        bad = [o for o in self.obl if o[2] == "violation"]
        und = [o for o in self.obl if o[2] == "undecided"]
        okn = [o for o in self.obl if o[2] == "ok"]
        new, seen = [], []
        for o in bad:
            key = "%s:%s" % (o[0], o[1])
            if key in known.get(self.pid, {}):
                seen.append((key, known[self.pid][key]))
            else:
                new.append(o)
        if len(self.obl) < self.min_obl and not new and not any(o[2] == "undecided" for o in self.obl):
            raise AnalysisBroken("%s: only %d obligations were generated, at least %d expected" % (self.pid, len(self.obl), self.min_obl))
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "other",
            "coverage": {
                "explanation": META_EXPLAIN.get(self.pid, "static obligations decided over the lowered value graph"),
                "obligations": len(self.obl), "discharged": len(okn), "undecided": len(und),
                "known_findings": len(seen),
                "rules": sorted({o[0] for o in self.obl}),
                "obligation_list": ["%s [%s] %s%s" % (o[2], o[0], o[1], (": " + o[3]) if o[3] else "") for o in self.obl][:400],
                "functions_analysed": sorted(self.analysed)[:400],
                "notes": self.notes,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - t0, 3),
            "violations": len(new),
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
            fh.write("\n")
        for k, d in seen:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, d))
        for o in und:
            print("undecided: [%s] %s: %s" % (o[0], o[1], o[3]))
        print("%s (%s): %d obligations, %d discharged, %d undecided, %d violated, %.1fs" % (
            self.pid, self.tier, len(self.obl), len(okn), len(und), len(new), time.time() - t0))
        if new:
            rp = os.path.join("evidence", self.pid + ".violation.txt")
            with open(os.path.join(ROOT, rp), "w") as fh:
                for o in new:
                    line = "[%s] %s: %s%s" % (o[0], o[1], o[3], (" at " + o[4]) if o[4] else "")
                    fh.write(line + "\n")
                    print("  " + line)
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        return 0


META_EXPLAIN = {}
OPAQUE = ("fn:ext:", "fn:call", "fn:opaque", "fn:attr:", "fn:join")


def unsup(e):
    if isinstance(e, StaticRaise):
        return "the analysed code raises %s %s" % (e.kind, e.args[1] if len(e.args) > 1 else "")
    return "outside the modelled language: %s" % e


def blame(a, b):
    """source position of the first place where the two graphs stop sharing structure"""
    try:
        sa, sb = set(ir.topo([a])), set(ir.topo([b]))
        d = [n for n in ir.topo([a]) if n not in sb and n.loc] or [n for n in ir.topo([b]) if n not in sa and n.loc]
        if d:
            locs = []
            for n in d:
                s = "%s:%s in %s" % n.loc
                if s not in locs:
                    locs.append(s)
            return "; ".join(locs[:3]) + (" … %s" % locs[-1] if len(locs) > 3 else "")
    except Exception:
        pass
    return ir.locstr(a)


def load_known():
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("known:"):
                # known: property=P17 key=<rule:construct> | description
                head, _, desc = line[6:].partition("|")
                kv = dict(x.split("=", 1) for x in head.split())
                out.setdefault(kv["property"], {})[kv["key"]] = desc.strip()
    return out


def run(pid, tier, seed, fn):
    t0 = time.time()
    chk = Check(pid, tier, seed)
    try:
        fn(chk)
        return chk.finish(t0, load_known())
    except (avn.Undecided, Unsupported, StaticRaise) as e:
        # a construct the interpreter does not model: what was decided before it stands, the rest is undecided
        chk.undecided("analysable", "the remaining obligations", unsup(e))
        chk.min_obl = 0
        return chk.finish(t0, load_known())
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        if chk.obl:
            # the analyser failed on one construct; what was decided before it stands
            chk.undecided("analysable", "the remaining obligations", "the analysis gave up: " + traceback.format_exc().strip().split("\n")[-1])
            chk.min_obl = 0
            return chk.finish(t0, load_known())
        print("ANALYSIS-BROKEN property=%s internal error" % pid)
        return 2
