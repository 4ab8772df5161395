"""Exact symmetries and covariances of the generated strain."""
from fractions import Fraction as Fr
from .. import ir, avn
from ..ir import sym, mul, add, sub, neg, scale, power, exp, cos, sin, const, subst_many, subst, I, ONE, ZERO, div
from ..interp import PI, Vec, N
from ..bench import bench, Model, ALL, MODELS, PV2, PV2H, BASE, F, FREF, M, DELTA, MC, ETA, M1, M2, BYNAME, W, defaults
from ..regions import ModelRegions
from . import check

D, TC, PHIC, INCL = sym("D"), sym("tc"), sym("phic"), sym("incl")
S, K, A_, B_ = sym("s"), sym("k"), sym("shift_a"), sym("shift_b")


def each(chk, fn, models=ALL):
    b = bench()

    def one(m):
        hp, hc = b.hphc(m)
        fn(b, m, hp, hc)
        chk.analysed |= b.funcs()
    chk.par(models, one)


def par(hps, exps):
    return [(l, a, e) for l, a, e in zip(("plus polarization", "cross polarization"), hps, exps)]


def guard_nonzero(chk, rule, m, hp, hc):
    if hp is ir.ZERO or hc is ir.ZERO:
        chk.bad(rule, m.name, "a polarization is identically zero", ir.locstr(hp))


@check("P01", "distance scaling: value-number equality of h(kD) and h(D)/k for a symbolic k, per model and polarization")
def p01(chk):
    chk.min_obl = 9

    def one(b, m, hp, hc):
        guard_nonzero(chk, "distance-scaling", m, hp, hc)
        r = subst_many([hp, hc], {D: mul(K, D)})
        chk.same("distance-scaling", m.name, par((hp, hc), [mul(K, x) for x in r]), BASE, regs=b.regions(m))
    each(chk, one)
    b = bench()
    th = [sym(x) for x in ("Q", "f0", "hrss", "phase", "ecc")]
    r = b.fields(b.call(W + "SineGaussian.gen_SineGaussian_hphc", sym("t"), Vec(th)), 2, "SineGaussian")
    q = subst_many(r, {sym("hrss"): mul(K, sym("hrss"))})
    chk.same("hrss-scaling", "SineGaussian", par(q, [mul(K, x) for x in r]), BASE)
    chk.analysed |= b.funcs()


@check("P02", "polarization content: hp = h0 (1+cos^2 i)/2 and hc = -i h0 cos i against the single-strain entry point, and i -> pi - i parity")
def p02(chk):
    chk.min_obl = 14

    def one(b, m, hp, hc):
        h0 = b.h0(m)
        c = cos(INCL)
        ep = mul(h0, const(Fr(1, 2)), add(ONE, mul(c, c)))
        ec = mul(neg(I), h0, c)
        chk.same("inclination", m.name, par((hp, hc), (ep, ec)), BASE, regs=b.regions(m))
        r = subst_many([hp, hc], {INCL: sub(PI, INCL)})
        chk.same("face-parity", m.name, par(r, (hp, neg(hc))), BASE)
        if "incl" in ir.deps(h0):
            chk.bad("inclination", m.name, "single strain depends on the inclination")
    each(chk, one, MODELS)


@check("P03", "coalescence time and phase covariance, value-number equality with symbolic shifts")
def p03(chk):
    chk.min_obl = 15

    def one(b, m, hp, hc):
        r = subst_many([hp, hc], {TC: add(TC, A_)})
        ph = exp(mul(I, const(-2), PI, F, A_))
        chk.same("time-shift", m.name, par(r, [mul(x, ph) for x in (hp, hc)]), BASE, regs=b.regions(m))
        if "phic" in m.params:
            r = subst_many([hp, hc], {PHIC: add(PHIC, B_)})
            ph = exp(mul(I, const(2), B_))
            chk.same("phase-shift", m.name, par(r, [mul(x, ph) for x in (hp, hc)]), BASE, regs=b.regions(m))
    each(chk, one)


@check("P05", "dimensional covariance: h(sM, f/s, f_ref/s, s tc) = s^2 h, value-number equality for symbolic s")
def p05(chk):
    chk.min_obl = 9

    def one(b, m, hp, hc):
        mp = {M: mul(S, M), F: div(F, S), sym("@f"): div(sym("@f"), S), FREF: div(FREF, S), TC: mul(S, TC)}
        r = subst_many([hp, hc], mp)
        chk.same("mass-scaling", m.name, par(r, [mul(S, S, x) for x in (hp, hc)]), BASE)
    each(chk, one)
    b = bench()
    fi = N(b.call("ripplegw.get_f_isco", sym("m1")))
    chk.same("mass-scaling", "get_f_isco", [("f_isco", subst(fi, {sym("m1"): mul(S, sym("m1"))}), div(fi, S))], BASE)


def delta_roots(roots):
    """bases of the square roots that stand for the mass difference: even functions of it over the total mass"""
    cand = {}
    for n in ir.topo(roots):
        if n.op == "mon":
            for b, e in n.args:
                if e.denominator == 2 and ir.deps(b) and set(ir.deps(b)) <= {"delta", "M"} and "delta" in ir.deps(b):
                    cand[b] = None
    out = []
    for b in cand:
        r = div(b, mul(DELTA, DELTA))
        vs = []
        for s in (1, 2, 3):
            vals = []
            for t in (0, 1):
                c = avn.Ctx(s, BASE.pos, BASE.cons)
                if t:
                    c.main.salt["delta"] = 7
                try:
                    vals.append(c.main.ev(r))
                except avn.Resample:
                    vals.append(None)
            vs.append(None not in vals and vals[0] == vals[1])
        if all(vs):
            out.append(b)
    return set(out)


def exchange(h, lam):
    """the strain of the system with the two bodies exchanged: the mass difference changes sign
    (every root that stands for it, and the canonical atom itself) and the body parameters swap"""
    c1, c2, l1, l2 = sym("chi1"), sym("chi2"), sym("l1"), sym("l2")
    br = delta_roots([h])

    def f(old, new):
        if old is DELTA:
            return neg(DELTA)
        if old.op == "mon":
            k = sum(1 for b, e in old.args if b in br and e.denominator == 2)
            if k % 2:
                return neg(new)
        return new
    r = ir.rewrite([h], f)[0]
    mp = {c1: c2, c2: c1}
    mp.update({l1: l2, l2: l1} if lam else {l2: neg(l2)})
    return subst_many([r], mp)[0], len(br)


@check("P07", "body exchange: the strain, continued to the opposite sign of the mass difference, equals the strain with the spins and tidal parameters of the bodies swapped (value-number equality, per model and region); and the same at equal masses")
def p07(chk):
    chk.min_obl = 14
    c1, c2, l1, l2 = sym("chi1"), sym("chi2"), sym("l1"), sym("l2")
    b = bench()

    def one(b, m, hp, hc):
        h = b.h0(m)
        lam = not m.kw.get("use_lambda_tildes", True)
        tid = "l1" in m.params
        if m.mod == "IMRPhenomD_NRTidalv2":
            # the merger frequency is defined with the larger mass on top: leave the taper out
            h = b.h0(Model(m.name + "[untapered]", m.mod, m.h0, m.hphc, m.params, dict(m.kw, no_taper=True)))
        x, k = exchange(h, lam)
        rg = b.regions(m)
        if not k:
            chk.undecided("exchange", m.name, "the mass difference was not found in the strain")
        else:
            chk.same("exchange", m.name, [("strain", h, x)], BASE, regs=rg)
        a = subst(b.h0(m), {DELTA: ZERO})
        mp = {c1: c2, c2: c1}
        if tid:
            mp.update({l1: l2, l2: l1} if lam else {l2: neg(l2)})
        e = subst(a, mp)
        if a is e:
            chk.ok("equal-mass exchange", m.name, "structurally identical")
            return
        try:
            rz = ModelRegions(subst(subst(b.h0(BYNAME[m.base]), {DELTA: ZERO}), {TC: ZERO, PHIC: ZERO}), 1, BASE,
                              last_jump=m.mod == "IMRPhenomD_NRTidalv2")
        except avn.Undecided as u:
            chk.undecided("equal-mass exchange", m.name, str(u))
            return
        chk.same("equal-mass exchange", m.name, [("strain", a, e)], BASE, regs=rz)
    each(chk, one, MODELS)
