"""High-frequency cut-offs: where the strain ends, and independence of the rest of the grid."""
from fractions import Fraction as Fr
from .. import ir, avn
from ..ir import sym, mul, add, sub, neg, power, const, subst, subst_many, ONE, ZERO, div
from ..bench import bench, BASE, MODELS, ALL, BYNAME, M, F
from ..interp import N
from ..regions import Regions, Bound, settle, L, R
from . import check

GRID, GRID2 = sym("@f"), sym("@g")
ENDS = {"IMRPhenomD": Fr(1, 5), "IMRPhenomXAS": Fr(3, 10), "IMRPhenomPv2": Fr(1, 5), "IMRPhenomD_NRTidalv2": Fr(1, 5)}


@check("P11", "cut-off rules on the lowered strain: zero in the region beyond every switch, non-zero in every region before, cut-off at a fixed dimensionless frequency or at a grid point selected with a provably non-negative index, no other dependence on the rest of the grid")
def p11(chk):
    chk.min_obl = 15
    b = bench()

    def one(m):
        hp, hc = b.hphc(m)
        chk.scope = [hp, hc]
        rg = b.regions(m)
        if m.mod in ENDS:
            tapered = m.mod == "IMRPhenomD_NRTidalv2" and not m.kw.get("no_taper")
            if m.mod != "IMRPhenomD_NRTidalv2" or tapered:
                beyond(chk, m, hp, hc)
            if rg is None:
                chk.undecided("cut-off", m.name, str(b.regs[m.base]))
            elif m.base == m.name:
                if rg.order is not None:
                    alive(chk, m, hp, rg)
                place(chk, b, m, rg, ENDS[m.mod])
        else:
            # no cut-off: the strain never vanishes
            rz = rg
            if rg is not None:
                alive(chk, m, hp, rg)
        local(chk, m, hp, hc, rg)
        index(chk, m, [hp, hc])
        chk.analysed |= b.funcs()
    chk.par(ALL, one)


def beyond(chk, m, hp, hc):
    try:
        reg = Regions([hp, hc])
        for s in range(chk.seed, chk.seed + chk.n(2, 10)):
            bd = settle(reg, [hp, hc], s, BASE)
            v = bd.eval([hp, hc], {k: R for k in bd.names})
            if v is None:
                chk.undecided("silence above the cut-off", m.name, "singular sample")
                return
            if any(v):
                chk.bad("silence above the cut-off", m.name, "the strain does not vanish beyond its last switch", ir.locstr(hp))
                return
    except avn.Undecided as e:
        chk.undecided("silence above the cut-off", m.name, str(e))
        return
    chk.ok("silence above the cut-off", m.name, "zero beyond %d switches" % len(bd.names))


def alive(chk, m, hp, rg):
    cost = avn.costs([hp] + rg.reg.extra())
    try:
        for s in range(chk.seed, chk.seed + chk.n(2, 10)):
            c = avn.Ctx(s, BASE.pos, BASE.cons)
            for lab, side in rg.states():
                if rg.enter(c, side, [hp], cost)[0] == 0:
                    chk.bad("signal below the cut-off", m.name, "the strain vanishes in " + lab, ir.locstr(hp))
                    return
    except avn.Undecided as e:
        chk.undecided("signal below the cut-off", m.name, str(e))
        return
    chk.ok("signal below the cut-off", m.name, "%d regions" % len(rg.states()))


def leaves(n, path=()):
    """branches of a selected value: (path of (condition, truth), leaf)"""
    if n.op == "where":
        yield from leaves(n.args[1], path + ((n.args[0], True),))
        yield from leaves(n.args[2], path + ((n.args[0], False),))
        return
    if n.op == "lin" and len(n.args[1]) == 1 and n.args[0] == 0:
        (a, k), = n.args[1]
        for p, x in leaves(a, path):
            yield p, ir.scale(x, k)
        return
    if n.op == "mon":
        for i, (x, e) in enumerate(n.args):
            if x.op == "where":
                rest = [power(y, f) for j, (y, f) in enumerate(n.args) if j != i]
                for p, z in leaves(x, path):
                    yield from leaves(mul(power(z, e), *rest), p)
                return
    yield path, n


def vn_equal(pairs, seeds=(1, 2, 3)):
    """[(a, b)] equal in every sample (predicates free)"""
    for s in seeds:
        c = avn.Ctx(s, BASE.pos, BASE.cons)
        roots = [x for p in pairs for x in p]
        v = c.settle(roots, avn.costs(roots))
        if any(v[2 * i] != v[2 * i + 1] for i in range(len(pairs))):
            return False
    return True


def orient(cond, truth, cut):
    """does the path condition say last grid point <= cut-off (+1) or >= (-1)?  None: something else"""
    if cond.op not in ("lt", "le"):
        return None
    u = sub(cond.args[1], cond.args[0])
    if not truth:
        u = neg(u)
    d = sub(cut, ir.fn("gather", GRID, const(-1)))
    signs = set()
    for s in range(1, 9):
        c = avn.Ctx(s, BASE.pos, BASE.cons)
        v = c.settle([div(u, d)], avn.costs([u, d]))
        signs.add(c.main.leg(c.main._real(v[0])))
    return signs.pop() if len(signs) == 1 else None


def place(chk, b, m, rg, k):
    """the cut-off sits at k / (total mass in seconds), or at the grid point chosen by nearness to it"""
    gt = N(b.get("ripplegw.constants.gt"))
    cut = div(const(k), mul(M, gt))
    rule = "place of the cut-off"
    if len(rg.cut) != 1:
        chk.bad(rule, m.name, "%d frequencies at which the strain ends" % len(rg.cut), rg.cr.where(rg.cut[0]) if rg.cut else None)
        return
    g = rg.cr.base.groups[rg.cr.base.names[rg.cut[0]]]
    fixed = grid = 0
    try:
        for n, _, bp in g:
            for path, leaf in leaves(bp):
                if not any(d.startswith("@") for d in ir.deps(leaf)):
                    if not vn_equal([(leaf, cut)]):
                        chk.bad(rule, m.name, "the cut-off is not at the model's dimensionless cut-off frequency %s" % k, ir.locstr(n))
                        return
                    fixed += 1
                    for cond, t in path:
                        if any(d.startswith("@") for d in ir.deps(cond)) and orient(cond, t, cut) == -1:
                            chk.bad(rule, m.name, "the fixed cut-off is chosen for grids that reach beyond it only", ir.locstr(cond))
                            return
                elif ir.isfn(leaf, "gather") and leaf.args[0] is GRID:
                    grid += 1
                    for cond, t in path:
                        if any(d.startswith("@") for d in ir.deps(cond)) and orient(cond, t, cut) == 1:
                            chk.bad(rule, m.name, "the cut-off is snapped to the grid for grids that end before it", ir.locstr(cond))
                            return
                    am = [x for x in ir.topo([leaf.args[1]]) if x.op in ("fn:argmin", "fn:argmax")]
                    for x in am:
                        a = x.args[0]
                        dist = sub(GRID, cut)
                        if x.op == "fn:argmax" or not ir.isfn(a, "abs") and (vn_equal([(a, dist)]) or vn_equal([(a, neg(dist))])):
                            chk.bad(rule, m.name, "the grid point is not the one nearest to the cut-off", ir.locstr(x))
                            return
                        if ir.isfn(a, "abs"):
                            a = mul(a.args[0], a.args[0])
                            dist = mul(dist, dist)
                            if not vn_equal([(a, dist)]):
                                chk.bad(rule, m.name, "the grid point is not selected by its distance to the cut-off", ir.locstr(x))
                                return
                    # at most a few grid points below the nearest one
                    off = offset(leaf.args[1])
                    if off is not None and not -2 <= off <= 0:
                        chk.bad(rule, m.name, "the cut-off is %d grid points away from the nearest one" % off, ir.locstr(leaf))
                        return
                else:
                    chk.undecided(rule, m.name, "unrecognised selection " + ir.show(leaf, 3))
                    return
    except avn.Undecided as e:
        chk.undecided(rule, m.name, str(e))
        return
    if not fixed:
        chk.undecided(rule, m.name, "no branch with a fixed cut-off")
        return
    chk.ok(rule, m.name, "%d predicates; %d fixed branches at %s/M, %d branches on a grid point" % (len(g), fixed, k, grid))


def offset(idx):
    """constant distance of the chosen index from the argmin, when visible"""
    for _, x in leaves(idx):
        c, t = ir._lin_terms(x)
        if len(t) == 1 and list(t)[0].op == "fn:argmin" and list(t.values())[0] == 1:
            return int(c)
    return None


def nonneg(n, facts=()):
    """sign analysis of an integer index"""
    if n.op == "const":
        return n.args[0] >= 0
    if n.op in ("fn:argmin", "fn:argmax", "fn:len", "fn:abs", "fn:searchsorted") or ir.is_bool(n):
        return True
    for c, t in facts:
        if c.op in ("lt", "le"):
            u = sub(c.args[1], c.args[0]) if t else sub(c.args[0], c.args[1])
            # u >= 0 (u > 0 for a strict comparison); n - u a non negative constant
            strict = (c.op == "lt") == t
            d = sub(n, u)
            if d.op == "const" and d.args[0] + (1 if strict else 0) >= 0:
                return True
    if n.op == "where":
        return nonneg(n.args[1], facts + ((n.args[0], True),)) and nonneg(n.args[2], facts + ((n.args[0], False),))
    if n.op == "lin":
        return n.args[0] >= 0 and all(v >= 0 and nonneg(a, facts) for a, v in n.args[1])
    if n.op == "mon":
        return all(nonneg(a, facts) for a, e in n.args)
    if n.op in ("fn:toint", "fn:floor", "fn:mod"):
        return nonneg(n.args[0], facts)
    return False


def index(chk, m, roots):
    bad = 0
    seen = 0
    for n in ir.topo(roots):
        if ir.isfn(n, "gather") and any(d.startswith("@") for d in ir.deps(n.args[0])):
            seen += 1
            i = n.args[1]
            if i.op == "const":
                continue
            if not nonneg(i):
                dep = [x for x in ir.topo([i]) if x.op in ("fn:argmin", "fn:argmax")]
                if dep:
                    chk.bad("grid index", m.name, "an index computed from the grid may be negative and wrap round to the end: %s" % ir.show(i, 3), ir.locstr(n))
                else:
                    chk.undecided("grid index", m.name, "index %s" % ir.show(i, 3))
                return
    chk.ok("grid index", m.name, "%d indexed reads of the grid, none can be negative" % seen)


def local(chk, m, hp, hc, rg):
    """below the cut-off the value at one frequency does not depend on the other entries of the grid"""
    roots = [hp, hc]
    at = sorted(d for d in ir.deps(hp) | ir.deps(hc) if d.startswith("@"))
    if not at:
        chk.ok("independent of the grid", m.name, "no dependence on other entries")
        return
    if rg is None:
        chk.undecided("independent of the grid", m.name, "regions unresolved")
        return
    other = subst_many(roots, {sym(a): sym("@g" + a) for a in at})
    mp = {sym(a): sym("@g" + a) for a in at}
    reg = Regions(roots + other)
    cost = avn.costs(roots + other + reg.extra() + rg.reg.extra())
    env = BASE.plus("gf")
    try:
        for s in range(chk.seed, chk.seed + chk.n(2, 8)):
            for lab, side in rg.states():
                c = avn.Ctx(s, env.pos, env.cons)
                for _ in range(60):
                    c.set_region({}, {}, dep=("f",))
                    c.settle(reg.extra() + rg.reg.extra(), cost)
                    b1 = Bound(rg.reg, c)
                    if len(b1.names) != rg.n:
                        raise avn.Undecided("the break points do not group consistently")
                    sd = {b1.names[i]: t for i, t in side.items()}
                    g = b1.gates(sd)
                    g.update({subst(n, mp): t for n, t in g.items()})
                    b2 = Bound(reg, c)
                    sd2 = {k: t for k, t in sd.items() if k in b2.groups}
                    # a switch of the other grid is on the same side as its twin
                    for k, preds in b2.groups.items():
                        if k not in sd2:
                            for n, _, _ in preds:
                                if n in g:
                                    sd2[k] = None
                    g2 = b2.gates({k: t for k, t in sd2.items() if t is not None})
                    for n, t in g2.items():
                        g.setdefault(n, t)
                    c.set_region({}, g, dep=("f",))
                    s0 = [dict(w.salt) for w in c.worlds()]
                    v = c.settle(roots + other, cost)
                    if [dict(w.salt) for w in c.worlds()] == s0:
                        break
                else:
                    raise avn.Undecided("no generic sample")
                n = len(roots)
                for i in range(n):
                    if v[i] != v[n + i]:
                        chk.bad("independent of the grid", m.name, "the strain below the cut-off depends on other grid entries in " + lab, grid_use(roots))
                        return
    except avn.Undecided as e:
        chk.undecided("independent of the grid", m.name, str(e))
        return
    chk.ok("independent of the grid", m.name, "%d regions" % len(rg.states()))


def grid_use(roots):
    locs = []
    for n in ir.topo(roots):
        if n.op in ("fn:gather", "fn:argmin", "fn:argmax", "fn:sum", "fn:len") and n.loc:
            s = "%s:%s in %s" % n.loc
            if s not in locs:
                locs.append(s)
    return "; ".join(locs[:4])
