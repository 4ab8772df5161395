"""Regions of the piecewise models: smooth joins, reference frequency, cut-offs."""
from fractions import Fraction as Fr
from .. import ir, avn
from ..ir import sym, mul, add, sub, neg, scale, power, const, subst, subst_many, diff, I, ONE, ZERO, div
from ..interp import Vec, N, PI
from ..bench import bench, BASE, ALL, MODELS, PV2, PV2H, BYNAME, F, FREF
from ..regions import L, R, Crossings
from . import check

FR2 = sym("f_ref2")


@check("P04", "reference frequency: h(f_ref')/h(f_ref) is a unit-modulus number independent of the frequency (its f-derivative vanishes), per model and region; the strain phase at f = f_ref is fixed")
def p04(chk):
    chk.min_obl = 10
    b = bench()
    def one(m):
        a = b.h0(m)
        c = subst(a, {FREF: FR2})
        if a is ir.ZERO:
            chk.bad("reference-phase", m.name, "strain is identically zero")
            return
        da, dc = diff(a, F), diff(c, F)
        rg = b.regions(m)
        chk.same("reference-rotation", m.name, [
            ("d/df of the phase under a change of f_ref", mul(dc, a), mul(da, c)),
            ("modulus under a change of f_ref", mul(c, ir.mk("fn:conj", (c,))), mul(a, ir.mk("fn:conj", (a,))))], BASE, regs=rg)
        if m.mod != "IMRPhenomD_NRTidalv2":
            # the phase at f = f_ref is a parameter independent multiple of pi/4 plus 2 phic
            h = subst(subst(a, {sym("tc"): ZERO, sym("phic"): ZERO}), {FREF: F})
            sq, n2 = mul(h, h), mul(h, ir.mk("fn:conj", (h,)))
            k = constant_phase(sq, n2, rg)
            chk.same("reference-phase", m.name, [("phase at the reference frequency", sq, mul(n2, (ONE, I, neg(ONE), neg(I))[k]))], BASE, regs=rg)
        chk.analysed |= b.funcs()
    chk.par(MODELS, one)


def constant_phase(sq, n2, rg):
    """k such that sq = i^k n2 in one sample, under either model of the logarithm (0 when there is none)"""
    roots = [sq] + [mul(n2, z) for z in (ONE, I, neg(ONE), neg(I))]
    for mode in (0, 1):
        avn.LOGMODE[0] = mode
        try:
            c = avn.Ctx(1, BASE.pos, BASE.cons)
            v = rg.enter(c, rg.states()[0][1], roots, avn.costs(roots + rg.reg.extra()))
            if v[0] in v[1:]:
                return v[1:].index(v[0])
        except avn.Undecided:
            pass
        finally:
            avn.LOGMODE[0] = 0
    return 0


@check("P08", "smooth joins: value and frequency derivative of the strain agree on both sides of every transition along one order of the transitions")
def p08(chk):
    chk.min_obl = 5
    b = bench()
    models = [m for m in ALL if m.base == m.name and m.mod != "TaylorF2"]

    def one(m):
        chk.scope = b.hphc(m)
        rg = b.regions(m)
        if rg is None:
            chk.undecided("smooth-join", m.name, str(b.regs[m.base]))
            return
        if rg.n == 0:
            chk.bad("smooth-join", m.name, "no frequency transitions found")
            return
        if rg.order is None:
            depth, fails, path = rg.problem
            w = "; ".join("%s is not %s at the transition at %s" % (
                m.name, "continuous" if o == 0 else "differentiable", rg.cr.where(i)) for i, v, o in fails)
            chk.bad("smooth-join", m.name, w)
            return
        seeds = [chk.seed] + list(range(11, 11 + (chk.n(0, 3) if m.mod == "IMRPhenomPv2" else chk.n(3, 12))))
        bad = set()
        for sd in seeds:
            try:
                cr = rg.cr if sd == 1 else Crossings(rg.reg, rg.cr.roots, sd * 100, BASE)
                if cr.n != rg.n:
                    chk.undecided("smooth-join", m.name, "transitions group differently in sample %d" % sd)
                    continue
                for k, i in enumerate(rg.order):
                    v, o = cr.cross(sum(1 << j for j in rg.order[:k]), i)
                    if v == "singular" or (v == "jump" and i not in rg.cut):
                        bad.add((k, i, v, o, cr.where(i)))
                    elif v == "same" and not cr.tie(sum(1 << j for j in rg.order[:k]), i):
                        bad.add((k, i, "tie", 2, cr.where(i)))
            except avn.Undecided as e:
                chk.undecided("smooth-join", m.name, "sample %d: %s" % (sd, e))
        for k, i in enumerate(rg.order):
            con = "%s transition %d" % (m.name, k + 1)
            w = [x for x in bad if x[0] == k]
            if w:
                chk.bad("smooth-join", con, ("not continuous", "not differentiable", "value exactly at the transition differs from its limit")[w[0][3] or 0], w[0][4])
            else:
                chk.ok("smooth-join", con, "%s at %s, %d samples" % (
                    "cut-off" if i in rg.cut else "value and slope agree", rg.cr.where(i), len(seeds)))
        if len(rg.cut) != 1:
            chk.bad("smooth-join", m.name, "%d cut-offs" % len(rg.cut))
        chk.analysed |= b.funcs()
    chk.par(models, one)
