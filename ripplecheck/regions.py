"""Frequency regions of a piecewise strain.

Every predicate of the lowered strain that compares something with the
frequency is turned into a break point; predicates are grouped by the value
number of their break point.  A region is a choice of side for every group.
No order of the break points is computed: an order is accepted when the strain
joins smoothly along it.
"""
from fractions import Fraction
from . import avn, ir
from .ir import Node, ZERO, sub, div, neg
from .avn import Resample, Undecided

L, R, T = -1, 1, 0


class Regions:
    def __init__(self, roots, var="f"):
        self.var = var
        self.v = ir.sym(var)
        self.roots = list(roots)
        self.preds = []          # (pred, slope, bp)
        for n in ir.topo(self.roots):
            if var not in ir.deps(n):
                continue
            if n.op in ("lt", "le", "eq"):
                a, b = n.args
                if a is ir.INF or b is ir.INF or not isinstance(a, Node) or not isinstance(b, Node):
                    continue
                u = sub(b, a)
                du = ir.diff(u, self.v)
                if du is None or var in ir.deps(du):
                    p = power_law(u, self.v)
                    if p is not None:
                        self.preds.append((n,) + p)
                        continue
                    raise Undecided("comparison is not linear in the frequency: %s at %s" % (ir.show(n, 3), ir.locstr(n)))
                self.preds.append((n, du, neg(div(ir.subst(u, {self.v: ZERO}), du))))
            elif n.op == "fn:boolext":
                raise Undecided("unmodelled predicate on the frequency at %s" % ir.locstr(n))

    def extra(self):
        return [x for _, d, b in self.preds for x in (d, b)]

    def bind(self, ctx):
        """group the predicates by break point value in this sample"""
        return Bound(self, ctx)


def power_law(u, v):
    """(slope, break point) of u = A v^p + B for v > 0, when -B/A is positive"""
    c, terms = ir._lin_terms(u)
    p, A, B = None, [], [ir.const(c)]
    for t, k in terms.items():
        if v.args[0] not in ir.deps(t):
            B.append(ir.scale(t, k))
            continue
        e, rest = degree(t, v)
        if e == 0 or p not in (None, e):
            return None
        p = e
        A.append(ir.scale(rest, k))
    if p is None:
        return None
    a, b = ir.add(*A), ir.add(*B)
    if v.args[0] in ir.deps(a):
        return None
    r = neg(div(b, a))
    from .bench import BASE
    for s in range(1, 9):
        ctx = avn.Ctx(s, BASE.pos, BASE.cons)
        if ctx.main.leg(ctx.main._real(ctx.settle([r], avn.costs([r]))[0])) != 1:
            return None
    return ir.scale(a, p), ir.power(r, 1 / Fraction(p))


def degree(t, v):
    """(e, rest) with t = v^e rest for v > 0, as far as visible"""
    if t is v:
        return 1, ir.ONE
    if t.op != "mon":
        return 0, t
    e, rest = 0, []
    for x, y in t.args:
        d, r = degree(x, v)
        e += d * y
        rest.append(ir.power(r, y))
    return e, ir.mul(*rest)


class Bound:
    def __init__(self, reg, ctx):
        self.reg, self.ctx = reg, ctx
        self.groups = {}
        for n, du, bp in reg.preds:
            self.groups.setdefault(ctx(bp), []).append((n, ctx.main.leg(ctx(du)), bp))
        # stable order: first appearance
        self.names = list(self.groups)

    def gates(self, side):
        """side: {group: L|R|T} -> {pred: truth}"""
        g = {}
        for k, s in side.items():
            for n, d, _ in self.groups[k]:
                u = d * s
                g[n] = u > 0 if n.op == "lt" else (u >= 0 if n.op == "le" else s == T)
        return g

    def at(self, k):
        return self.groups[k][0][2]

    def loc(self, k):
        for n, _, bp in self.groups[k]:
            if n.loc:
                return ir.locstr(n)
        return ir.locstr(self.at(k))

    def eval(self, roots, side, at=None):
        """values of the roots on the given sides, optionally at the break point `at`"""
        al = {self.reg.var: self.at(at)} if at is not None else {}
        self.enter(side, at)
        try:
            return [self.ctx(r) for r in roots]
        except Resample as e:
            self.why = str(e)
            return None
        finally:
            self.leave()

    def enter(self, side, at=None):
        al = {self.reg.var: self.at(at)} if at is not None else {}
        self.ctx.set_region(al, self.gates(side), dep=(self.reg.var,))
        self.ctx.twist = {self.reg.var} if at is not None else set()

    def leave(self):
        self.ctx.set_region({}, {}, dep=(self.reg.var,))
        self.ctx.twist = set()


def settle(reg, roots, seed, env, group=None, fixed=None):
    """a generic sample for the regions (at the break point of one group): a Bound

    group is an index into Bound.names."""
    ctx = avn.Ctx(seed, env.pos, env.cons)
    cost = avn.costs(list(roots) + reg.extra())

    def salts():
        return [dict(w.salt) for w in ctx.worlds()]
    for _ in range(60):
        ctx.settle(reg.extra(), cost)
        b = Bound(reg, ctx)
        g = b.names[group] if group is not None else None
        s0 = salts()
        for s in (R, L):
            b.enter({k: s for k in b.names}, g)
            try:
                ctx.settle(list(roots), cost)
            finally:
                b.leave()
            if salts() != s0:
                break
        if salts() == s0:
            return b
    raise Undecided("no generic sample at the break points")


def settle_at(reg, roots, seed, env, group, mask):
    """a sample that is generic on both sides of one break point, the others being passed or not (mask)"""
    ctx = avn.Ctx(seed, env.pos, env.cons)
    cost = avn.costs(list(roots) + reg.extra())

    def salts():
        return [dict(w.salt) for w in ctx.worlds()]
    for _ in range(60):
        ctx.settle(reg.extra(), cost)
        b = Bound(reg, ctx)
        if len(b.names) <= group:
            raise Undecided("the break points do not group consistently")
        s0 = salts()
        for s in (L, R, T):
            sd = {n: (R if mask >> j & 1 else L) for j, n in enumerate(b.names)}
            sd[b.names[group]] = s
            b.enter(sd, b.names[group])
            try:
                ctx.settle(list(roots), cost, 200)
            finally:
                b.leave()
            if salts() != s0:
                break
        if salts() == s0:
            return b
    raise Undecided("no generic sample at the break points")


class Crossings:
    """do the roots (first one: the strain) agree on both sides of a break point?"""

    def __init__(self, reg, roots, seed, env):
        self.reg, self.roots = reg, roots
        b = settle(reg, roots, seed, env)
        self.n = len(b.names)
        self.base = b
        self.seed, self.env = seed, env
        self.bounds = {}
        self.memo = {}

    def bound(self, i):
        b = self.bounds.get(i)
        if b is None:
            for s in range(self.seed, self.seed + 6):
                try:
                    b = settle(self.reg, self.roots, s, self.env, i)
                    if len(b.names) == self.n:
                        break
                except Undecided as e:
                    err = e
            else:
                raise err if b is None else Undecided("the break points do not group consistently")
            self.bounds[i] = b
        return b

    def cross(self, state, i):
        """state: bitmask of the groups below f.  ("same"|"jump"|"singular", order, zero after)"""
        k = (state & ~(1 << i), i)
        r = self.memo.get(k)
        if r is None:
            b = self.bound(i)
            sd = {n: (R if k[0] >> j & 1 else L) for j, n in enumerate(b.names)}
            at = b.names[i]
            sd[at] = L
            l = b.eval(self.roots, sd, at)
            sd[at] = R
            h = b.eval(self.roots, sd, at)
            if (l is None or h is None) and b.why.startswith("root"):
                # no singularity: this sample has no such root
                for t in range(3):
                    try:
                        b = settle_at(self.reg, self.roots, self.seed + 7 + t, self.env, i, k[0])
                    except Undecided:
                        continue
                    if len(b.names) == self.n:
                        sd = {n: (R if k[0] >> j & 1 else L) for j, n in enumerate(b.names)}
                        at = b.names[i]
                        sd[at] = L
                        l = b.eval(self.roots, sd, at)
                        sd[at] = R
                        h = b.eval(self.roots, sd, at)
                        break
            zl = l is not None and l[0] == 0 and all(x == 0 for x in l)
            zr = h is not None and all(x == 0 for x in h)
            if zr and not zl:
                # the strain ends here (also when the left side is singular)
                r = ("end", None)
            elif l is None or h is None:
                r = ("singular", None)
            else:
                bad = [j for j, (x, y) in enumerate(zip(l, h)) if x != y]
                r = ("same", None) if not bad else ("jump", bad[0])
            self.memo[k] = r
        return r

    def tie(self, state, i):
        """does the strain exactly at a smooth break point equal its limit?"""
        b = self.bound(i)
        sd = {n: (R if state >> j & 1 else L) for j, n in enumerate(b.names)}
        at = b.names[i]
        sd[at] = L
        l = b.eval(self.roots[:1], sd, at)
        sd[at] = T
        t = b.eval(self.roots[:1], sd, at)
        return l is None or t is None or l == t

    def search(self, allow_singular=True, last_jump=False):
        """an order of all groups along which the strain joins smoothly (it may end):
        (order with verdicts, None) or (None, report of the furthest attempts)"""
        full = (1 << self.n) - 1
        seen, best = set(), [0, 0, None]

        def go(state, ended, path):
            if state == full:
                return path
            key = (state, ended)
            if key in seen:
                return None
            seen.add(key)
            fails = []
            for i in range(self.n):
                if state >> i & 1:
                    continue
                v, o = self.cross(state, i)
                if v == "jump" and last_jump and state | 1 << i == full:
                    v = "last"
                if v == "jump" or (v == "singular" and not allow_singular):
                    fails.append((i, v, o))
                    continue
                if v == "end" and not ended:
                    # the strain may end only when nothing but further ends remains
                    rest = [j for j in range(self.n) if j != i and not state >> j & 1]
                    if any(self.cross(state, j)[0] not in ("end", "singular") for j in rest):
                        continue
                r = go(state | 1 << i, ended or v == "end", path + [(i, v)])
                if r is not None:
                    return r
            if fails and len(path) >= best[0]:
                best[:] = [len(path), fails, path]
            return None
        r = go(0, False, [])
        return r, best

    def where(self, i):
        return self.bound(i).loc(self.bound(i).names[i])

    def ends(self, path):
        return [i for i, v in path if v in ("end", "last")]


class ModelRegions:
    """the frequency regions of one model, in the order in which the strain passes through them"""

    def __init__(self, strain, seed, env, var="f", last_jump=False):
        self.reg = Regions([strain], var)
        self.order, self.report = None, None
        self.cut = []
        self.n = 0
        self.problem = None
        self.cr = None
        self.regs = {}
        self.known = {}
        if self.reg.preds:
            roots = [strain, ir.diff(strain, self.reg.v)]
            self.cr = Crossings(self.reg, roots, seed, env)
            self.n = self.cr.n
            path, best = self.cr.search(last_jump=last_jump)
            if path is None:
                self.problem = best
                # fall back: groups that never join smoothly and after which the strain vanishes
                full = (1 << self.n) - 1
                for i in range(self.n):
                    vs = {self.cr.cross(s & ~(1 << i), i)[0] for s in range(0, full + 1, max(1, full // 16))}
                    vs.add(self.cr.cross(full, i)[0])
                    if "same" not in vs and "end" in vs:
                        self.cut.append(i)
            else:
                self.order = [i for i, _ in path]
                self.cut = self.cr.ends(path)

    def states(self, above=False):
        """[(label, {group index: side})]: every region in which the strain is on
        (above: the region beyond the last break point instead)"""
        if above:
            return [("above the cutoff", {i: R for i in range(self.n)})]
        if not self.n:
            return [("all frequencies", {})]
        if self.order is None:
            free = [i for i in range(self.n) if i not in self.cut]
            out = []
            for m in range(1 << len(free)):
                sd = {i: (R if m >> j & 1 else L) for j, i in enumerate(free)}
                sd.update({i: L for i in self.cut})
                out.append(("region %s" % bin(m), sd))
            return out[:32]
        out, state = [], set()
        for k in range(len(self.order) + 1):
            if k and self.order[k - 1] in self.cut:
                break
            if k:
                state.add(self.order[k - 1])
            out.append(("region %d" % (k + 1), {i: (R if i in state else L) for i in range(self.n)}))
        return out

    def references(self, roots):
        """the predicates of the roots on reference frequencies"""
        out = []
        for v in ("f_ref", "f_ref2"):
            key = (v, tuple(roots))
            if key not in self.regs:
                self.regs[key] = None
                if self.order is not None and any(v in ir.deps(r) for r in roots):
                    try:
                        self.regs[key] = Regions(roots, v)
                    except Undecided:
                        pass
            if self.regs[key] is not None:
                out.append(self.regs[key])
        return out

    def reference(self, ctx, roots, b):
        """a reference frequency lies on one side of every break point, and in their order"""
        out = {}
        for j, reg in enumerate(self.references(roots)):
            br = Bound(reg, ctx)
            free = [i for i in self.order if i not in self.cut]
            k = (ctx.seed * 5 + 3 * j) % (len(free) + 1)
            side = {b.names[i]: (R if q < k else L) for q, i in enumerate(free)}
            out.update(br.gates({n: x for n, x in side.items() if n in br.groups}))
        return out

    def positive(self, ctx, cls):
        """what is positive because of the order of the break points"""
        p = ctx.main.p
        pts = [(self.order.index(i), k) for k, i in cls.items() if isinstance(k, int)]
        pos = {k for _, k in pts} | {(y - x) % p for i, x in pts for j, y in pts if i < j}
        try:
            from .bench import M
            from .interp import GT_
            k = ctx(ir.mul(M, GT_))
            pos |= {u * k % p for u in pos} | {u * ctx.main.inv(k) % p for u in pos}
        except Resample:
            pass
        return pos

    def enter(self, ctx, sides, roots, cost):
        """put a sample into a region and return the values of the roots there"""
        def salts():
            return [dict(w.salt) for w in ctx.worlds()]
        dep = (self.reg.var,)
        key = tuple(roots)
        reg = self.regs.get(key)
        if reg is None:
            reg = self.regs[key] = Regions(roots, self.reg.var)
        fixed = getattr(ctx, "reference", None)
        for k in range(200):
            ctx.set_region({}, fixed, dep=dep)
            if self.reg.preds:
                ctx.settle(self.reg.extra() + reg.extra() + [x for r in self.references(roots) for x in r.extra()], cost)
                b = Bound(self.reg, ctx)
                if len(b.names) != self.n:
                    raise Undecided("the break points do not group consistently")
                side = {b.names[i]: s for i, s in sides.items()}
                g = b.gates(side)
                # predicates of the compared values with the same break points, however they are written
                b2 = Bound(reg, ctx)
                cls = {v: i for i, v in enumerate(b.names)}
                for v, ps in b2.groups.items():
                    if v in cls:
                        self.known.update({p[0]: cls[v] for p in ps})
                for v, ps in b2.groups.items():
                    # elsewhere in this sample: the break point it has in the samples where they agree
                    i = {self.known.get(p[0]) for p in ps}
                    if v not in cls and len(i) == 1 and None not in i:
                        cls[v] = i.pop()
                g.update(b2.gates({v: sides[i] for v, i in cls.items() if v in b2.groups}))
                if self.order is not None and k < 20:
                    pos = self.positive(ctx, cls)
                    if pos != ctx.signs and ctx.set_signs(pos):
                        continue
                if fixed is None:
                    fixed = ctx.reference = self.reference(ctx, roots, b)
                    ctx.set_region({}, fixed, dep=("f_ref", "f_ref2"))
                ctx.set_region({}, dict(fixed, **{}) | g, dep=dep)
            s0 = salts()
            v = ctx.settle(roots, cost)
            if salts() == s0:
                return v
        raise Undecided("no generic sample in this region")
