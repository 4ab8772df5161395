"""The sine-Gaussian burst and the universal relations of neutron-star multipoles."""
from fractions import Fraction as Fr
from .. import ir, fold
from ..ir import sym, mul, add, sub, neg, power, const, subst, subst_many, ONE, ZERO, div, exp, cos, sin, log, scale
from ..interp import Vec, N, PI, StaticRaise, Unsupported
from ..bench import bench, BASE, W
from . import check

H = Fr(1, 2)


def anchor(chk, b, dotted, *args, n=None, **kw):
    """lower a helper of the package; None (and an undecided obligation) when it is not there any more"""
    try:
        f = b.it.getattr_mod(dotted)
        r = b.it.call(f, list(args), kw)
        return b.fields(r, n, dotted) if n else N(r)
    except (Unsupported, StaticRaise, KeyError, AttributeError) as e:
        chk.undecided("anchor", dotted, repr(e))
    except Exception as e:
        if type(e).__name__ != "AnalysisBroken":
            raise
        chk.undecided("anchor", dotted, repr(e))
    return None


@check("P24", "value-number equality of both burst polarizations with their closed form, and with themselves under time reversal, phase flips and a change of time unit; the eccentricity factors satisfy a^2+b^2=1")
def p24(chk):
    b = bench()
    T, Q, F0, HR, PH, E = (sym(x) for x in ("t", "Q", "f0", "hrss", "phase", "ecc"))
    hp, hc = b.fields(b.call(W + "SineGaussian.gen_SineGaussian_hphc", T, Vec([Q, F0, HR, PH, E])), 2, "SineGaussian")
    A = power(sub(const(2), mul(E, E)), -H)
    B = mul(A, power(sub(ONE, mul(E, E)), H))
    nrm = div(Q, mul(const(4), F0, power(PI, H)))
    eq = exp(neg(mul(Q, Q)))
    c, s = mul(nrm, add(ONE, eq)), mul(nrm, sub(ONE, eq))
    cp, sp = mul(cos(PH), cos(PH)), mul(sin(PH), sin(PH))
    x = mul(const(2), PI, F0, T)
    env = exp(neg(div(mul(x, x), mul(const(2), Q, Q))))
    ep = mul(HR, A, power(add(mul(c, cp), mul(s, sp)), -H), env, cos(sub(x, PH)))
    ec = mul(HR, B, power(add(mul(c, sp), mul(s, cp)), -H), env, sin(sub(x, PH)))
    chk.same("closed form", "SineGaussian", [("plus", hp, ep), ("cross", hc, ec)], BASE)
    r = subst_many([hp, hc], {T: neg(T), PH: neg(PH)})
    chk.same("time reversal", "SineGaussian", [("plus", r[0], hp), ("cross", r[1], neg(hc))], BASE)
    r = subst_many([hp, hc], {PH: add(PH, PI)})
    chk.same("phase flip", "SineGaussian", [("plus", r[0], neg(hp)), ("cross", r[1], neg(hc))], BASE)
    K = sym("k")
    r = subst_many([hp, hc], {T: mul(K, T), F0: div(F0, K)})
    chk.same("time unit", "SineGaussian", [("plus", mul(r[0], power(K, H)), hp), ("cross", mul(r[1], power(K, H)), hc)], BASE)
    r = anchor(chk, b, W + "SineGaussian.semi_major_minor_from_e", E, n=2)
    if r:
        chk.same("axes", "semi_major_minor_from_e", [("a^2+b^2", add(mul(r[0], r[0]), mul(r[1], r[1])), ONE),
                                                     ("b/a", r[1], mul(r[0], power(sub(ONE, mul(E, E)), H)))], BASE)
    chk.analysed |= b.funcs()
    chk.min_obl = 5


QUAD = ["0.1940", "0.09163", "0.04812", "-4.283e-3", "1.245e-4"]
OCT = ["0.003131", "2.071", "-0.7152", "0.2458", "-0.03309"]
LOW = ["1", "0.427688866723244", "-0.324336526985068", "0.1107439432180572"]


def poly(co, x):
    return add(*[mul(const(Fr(c)), power(x, Fr(i))) for i, c in enumerate(co)])


def quad_oct(lam):
    """the published relations (Yagi & Yunes; LALSimUniversalRelations): quadrupole and octupole of a body of tidal deformability lam"""
    lo = poly(LOW, lam)
    lq = poly(QUAD, log(lam))
    c = ir.lt(lam, ONE)
    return ir.where(c, lo, exp(lq)), ir.where(c, exp(poly(OCT, log(lo))), exp(poly(OCT, lq)))


@check("P23", "value-number equality of the lowered multipole functions with the published fits on both branches; constant folding of value, slope and curvature at the junction and of the black-hole limit; the same for the effective tidal coupling")
def p23(chk):
    from .published import anytide
    b = bench()
    X = sym("l1")
    r = anchor(chk, b, W + "IMRPhenom_tidal_utils.get_quadparam_octparam", X, n=2)
    if r:
        e = quad_oct(X)
        anytide(chk, "universal relation", "get_quadparam_octparam", [("quadrupole", r[0], e[0]), ("octupole", r[1], e[1])])
        sw = [n for n in ir.topo(r) if n.op == "lt" and "l1" in ir.deps(n)]
        if sw:
            n = sw[0]
            for lab, root in (("quadrupole", r[0]), ("octupole", r[1])):
                for k, nm in enumerate(("value", "slope", "curvature")):
                    d = root
                    for _ in range(k):
                        d = ir.diff(d, X)
                    side = []
                    for t in (ir.TRUE, ir.FALSE):
                        g = {m: t for m in ir.topo([d]) if m is n}
                        side.append(subst(subst(d, g), {X: ONE}))
                    try:
                        a, c = fold.fold(side[0]), fold.fold(side[1])
                    except fold.NotConstant as u:
                        chk.undecided("junction", "%s %s" % (lab, nm), str(u))
                        continue
                    chk.expect(abs(a - c) <= fold.D("1e-6") * max(1, abs(a)), "junction", "%s %s at lambda = 1" % (lab, nm), "%.10g below, %.10g above" % (a, c), ir.locstr(root))
        else:
            chk.bad("universal relation", "get_quadparam_octparam", "no separate fit below lambda = 1")
        try:
            z = [fold.fold(subst(x, {X: ZERO})) for x in r]
            chk.expect(z[0] == 1, "black-hole limit", "quadrupole", "%.10g" % z[0], ir.locstr(r[0]))
            chk.expect(abs(z[1] - 1) < fold.D("0.004"), "black-hole limit", "octupole", "%.10g" % z[1], ir.locstr(r[1]))
        except fold.NotConstant as u:
            chk.undecided("black-hole limit", "multipoles", str(u))
    m1, m2, l1, l2 = (sym(x) for x in ("m1", "m2", "l1", "l2"))
    k = anchor(chk, b, W + "IMRPhenom_tidal_utils.get_kappa", Vec([m1, m2, sym("chi1"), sym("chi2"), l1, l2]))
    if k is not None:
        M = add(m1, m2)
        x1, x2 = div(m1, M), div(m2, M)
        e = mul(const(Fr(3, 13)), add(mul(add(ONE, mul(const(12), div(x2, x1))), power(x1, 5), l1), mul(add(ONE, mul(const(12), div(x1, x2))), power(x2, 5), l2)))
        anytide(chk, "tidal coupling", "get_kappa", [("definition", k, e)])
        lt = b.fields(b.call("ripplegw.lambdas_to_lambda_tildes", Vec([l1, l2, sym("M1p"), sym("M2p")])), 2, "lambda tilde")[0]
        from ..bench import M1, M2
        lt = subst(lt, {sym("M1p"): M1, sym("M2p"): M2})
        kk = subst_many([k], {m1: M1, m2: M2})[0]
        chk.same("tidal coupling", "3/16 of the dominant tidal parameter", [("kappa", mul(const(Fr(16, 3)), kk), lt)], BASE)
    chk.analysed |= b.funcs()
    chk.min_obl = 3
