"""The generated strain against independently written or stored forms of the published models."""
from fractions import Fraction as Fr
from .. import avn, ir, refmodel
from ..ir import sym, mul, add, sub, neg, power, const, I, ONE, ZERO, div, exp, log, cos, scale, subst_many
from ..interp import conj, PI, EG_, MPC_, MR_, GT_
from ..bench import Env, bench, BASE, BYNAME, F, FREF, M, M1, M2, ETA, DELTA, Model, BNS
from ..regions import ModelRegions
from .misc import quad_oct
from . import check

REFS = (("IMRPhenomD", "IMRPhenomD"), ("IMRPhenomXAS", "IMRPhenomXAS"), ("IMRPhenomPv2", "IMRPhenomPv2"), ("IMRPhenomPv2_hphc", "IMRPhenomPv2"))


def principal(r, ref):
    """Where the published model has principal values arctan(y/x) only, a two-argument arctan2(y, x)
    of the code stands for the same angle: its denominators are widths and frequencies, which are positive."""
    if any(n.op == "fn:arctan2" for n in ir.topo(list(ref))):
        return list(r)

    def f(old, new):
        return ir.fn("arctan", div(*new.args)) if new.op == "fn:arctan2" else new
    return ir.rewrite(list(r), f)


@check("P21", "value-number equality of both polarizations with the stored reference value graph of the published model, in every frequency region")
def p21(chk):
    chk.min_obl = 4
    b = bench()

    def one(a):
        name, base = a
        m = BYNAME[name]
        r = b.hphc(m)
        ref = refmodel.load(base)
        rg = b.regions(m)
        r = principal(r, ref)
        chk.same("published model", name, [("plus", r[0], ref[0]), ("cross", r[1], ref[1])], BASE, regs=rg)
        chk.analysed |= b.funcs()
    chk.par(REFS, one)


def c(x):
    return const(Fr(x))


def pol(x, *co):
    """co[0] + co[1] x + ..."""
    return add(*[mul(a if isinstance(a, ir.Node) else c(a), power(x, Fr(i))) for i, a in enumerate(co)])


X1, X2 = div(M1, M), div(M2, M)
C1, C2, L1, L2, LT, DLT = (sym(x) for x in ("chi1", "chi2", "l1", "l2", "lt", "dlt"))
D, TC, PHIC, INCL = (sym(x) for x in ("D", "tc", "phic", "incl"))
BODIES = ((X1, C1, L1), (X2, C2, L2))


def spin_series():
    """the point-particle post-Newtonian phase 3/(128 eta v^5) * sum_k (a_k + b_k log v) v^k: dicts k -> coefficient
    (Buonanno et al. 2009; Arun et al. 2009; Mikoczi et al. 2005; Bohe et al. 2013, 2015; Mishra et al. 2016)"""
    e = ETA
    a, l = {}, {}
    a[0] = ONE
    a[2] = pol(e, Fr(3715, 756), Fr(55, 9))
    a[3] = mul(c(-16), PI)
    a[4] = pol(e, Fr(15293365, 508032), Fr(27145, 504), Fr(3085, 72))
    t5 = mul(PI, pol(e, Fr(38645, 756), Fr(-65, 9)))
    a[5], l[5] = t5, scale(t5, 3)
    l[6] = c(Fr(-6848, 21))
    a[6] = add(c(Fr(11583231236531, 4694215680)), mul(c(Fr(-640, 3)), PI, PI), mul(c(Fr(-6848, 21)), add(EG_, log(c(4)))),
               mul(e, add(c(Fr(-15737765635, 3048192)), mul(c(Fr(2255, 12)), PI, PI))),
               mul(c(Fr(76055, 1728)), power(e, 2)), mul(c(Fr(-127825, 1296)), power(e, 3)))
    a[7] = mul(PI, pol(e, Fr(77096675, 254016), Fr(378515, 1512), Fr(-74045, 756)))

    def so(g):
        return add(*[mul(x, ch, g(x)) for x, ch, _ in BODIES])
    a[3] = add(a[3], so(lambda x: pol(x, 25, Fr(38, 3))))
    s5 = so(lambda x: neg(pol(x, add(c(Fr(13915, 84)), mul(c(Fr(-10, 3)), e)), add(c(Fr(12760, 81)), mul(c(Fr(170, 9)), e)))))
    a[5], l[5] = add(a[5], s5), add(l[5], scale(s5, 3))
    a[6] = add(a[6], mul(PI, so(lambda x: pol(x, Fr(1490, 3), 260))))
    a[7] = add(a[7], so(lambda x: add(pol(e, Fr(-170978035, 48384), Fr(2876425, 672), Fr(4735, 144)),
                                      mul(x, pol(e, Fr(-7189233785, 1524096), Fr(458555, 3024), Fr(-5345, 72))))))
    ss = mul(C1, C2)
    a[4] = add(a[4], mul(c(Fr(-395, 4)), e, ss))
    a[6] = add(a[6], mul(e, ss, pol(e, Fr(32675, 112), Fr(5575, 18))))
    for x, ch, lam in BODIES:
        q = quad_oct(lam)[0]
        x2 = mul(x, x, ch, ch)
        a[4] = add(a[4], mul(x2, add(mul(c(-50), q), c(Fr(-5, 8)))))
        a[6] = add(a[6], mul(x2, add(mul(q, pol(x, Fr(47035, 84), Fr(2935, 6), -120)), pol(x, Fr(-410825, 672), Fr(-1085, 12), Fr(1255, 36)))))
    return a, l


def tidal_series():
    """adiabatic quadrupolar tides to 7PN without the disputed 7.5PN term (Damour, Nagar & Villain 2012)"""
    t = {10: [], 12: [], 13: [], 14: []}
    for x, _, lam in BODIES:
        k = mul(lam, power(x, 4))
        t[10].append(mul(k, pol(x, -288, 264)))
        t[12].append(mul(k, pol(x, Fr(-15895, 28), Fr(4595, 28), Fr(5715, 14), Fr(-325, 7))))
        t[13].append(mul(k, PI, pol(x, 288, -264)))
        t[14].append(mul(k, c(-5), pol(x, Fr(193986935, 571536), Fr(-14415613, 381024), Fr(-57859, 378), Fr(-209495, 1512), Fr(965, 54), -4)))
    return {k: add(*v) for k, v in t.items()}


def taylorf2(f, fref):
    a, l = spin_series()
    for k, v in tidal_series().items():
        a[k] = v
    pre = div(c(3), mul(c(128), ETA))
    ms = mul(M, GT_)

    def psi(f):
        v = power(mul(PI, ms, f), Fr(1, 3))
        return mul(pre, add(*[mul(add(a[k], mul(l[k], log(v)) if k in l else ZERO), power(v, k - 5)) for k in a]))
    p = sub(psi(f), psi(fref)) if fref is not None else psi(f)
    p = add(p, mul(c(2), PI, f, TC), mul(c(-2), PHIC), mul(c(Fr(-1, 4)), PI))
    # Newtonian amplitude of the stationary phase approximation: sqrt(5/24) pi^(-2/3) c (G Mc/c^3)^(5/6) f^(-7/6) / D, negative sign as in LALSuite
    amp = mul(c(-1), power(c(Fr(5, 24)), Fr(1, 2)), power(PI, Fr(-2, 3)), MR_, power(GT_, Fr(-1, 6)), power(mul(M, power(ETA, Fr(3, 5))), Fr(5, 6)),
              power(f, Fr(-7, 6)), power(mul(D, MPC_), -1))
    return mul(amp, exp(neg(mul(I, p))))


def pols(h):
    ci = cos(INCL)
    return mul(h, c(Fr(1, 2)), add(ONE, mul(ci, ci))), neg(mul(I, h, ci))


def tildes():
    """the combined tidal parameters of the two bodies (Wade et al. 2014)"""
    e = ETA
    p, m = add(L1, L2), sub(L1, L2)
    lt = mul(c(Fr(8, 13)), add(mul(p, pol(e, 1, 7, -31)), mul(DELTA, m, pol(e, 1, 9, -11))))
    dl = mul(c(Fr(1, 2)), add(mul(DELTA, p, pol(e, 1, Fr(-13272, 1319), Fr(8944, 1319))),
                              mul(m, pol(e, 1, Fr(-15910, 1319), Fr(32850, 1319), Fr(3380, 1319)))))
    return lt, dl


_below1 = [lambda v, w: w.leg(v) == 1 and w.leg(1 + v) == 1]


def anytide(chk, rule, name, pairs, regs=False):
    """the comparison for deformabilities of either sign, which combined tidal parameters reach"""
    for x, lab in ((None, ""), (L1, " (lambda1 < 0)"), (L2, " (lambda2 < 0)")):
        p, env = pairs, BASE
        if x is not None:
            r = subst_many([v for _, u, w in pairs for v in (u, w)], {x: neg(x)})
            p = [(l, r[2 * i], r[2 * i + 1]) for i, (l, _, _) in enumerate(pairs)]
            env = Env(BASE.pos, dict(BASE.cons, **{x.args[0]: _below1}))
        chk.same(rule, name + lab, p, env, regs=regs)


@check("P10", "value-number equality of the TaylorF2 polarizations with an independently written closed form, in both tidal parametrisations, with and without reference frequency")
def p10(chk):
    chk.min_obl = 4
    b = bench()
    for name, fr in (("TaylorF2[lambda1,lambda2]", FREF), ("TaylorF2", FREF), ("TaylorF2[lambda1,lambda2]", None), ("TaylorF2", None)):
        m = BYNAME[name]
        r = b.hphc(m) if fr is not None else b.hphc(m, fref=ZERO)
        if "use_lambda_tildes" not in m.kw:
            lt, dl = tildes()
            r = subst_many(list(r), {L1: lt, L2: dl})
        e = pols(taylorf2(F, fr))
        anytide(chk, "closed form", name + ("" if fr is not None else " f_ref=0"), [("plus", r[0], e[0]), ("cross", r[1], e[1])])
    chk.analysed |= b.funcs()


def nrtidalv2(x):
    """(amplitude correction over c M^2 ..., phase correction, kappa) of Dietrich et al. 2019 (1905.06011)"""
    k = mul(c(Fr(3, 13)), add(mul(add(ONE, mul(c(12), div(X2, X1))), power(X1, 5), L1), mul(add(ONE, mul(c(12), div(X1, X2))), power(X2, 5), L2)))
    h = Fr(1, 2)

    def ser(*co):
        return add(*[mul(c(v), power(x, e)) for v, e in co])
    amp = mul(c(-9), k, power(x, Fr(13, 4)),
              div(ser((1, 0), (Fr(449, 108), 1), (Fr(22672, 9), Fr("2.89"))), ser((1, 0), ("13477.8073677", 4))))
    # 2 sqrt(pi/5) * 2 sqrt(5/(64 pi)) = 1/2
    amp = mul(amp, c(h), M, M, MR_, GT_, power(mul(D, MPC_), -1))
    pade = div(ser((1, 0), ("-12.615214237993088", 1), ("19.0537346970349", 3 * h), ("-21.166863146081035", 2), ("90.55082156324926", 5 * h), ("-60.25357801943598", 3)),
               ser((1, 0), ("-15.111207827736678", 1), ("22.195327350624694", 3 * h), ("8.064109635305156", 2)))
    psi = mul(c(Fr(-39, 16)), k, power(ETA, -1), power(x, 5 * h), pade)
    # spin-induced quadrupole and octupole terms beyond those of a black hole
    ss = []
    for (xa, ca, la), (xb, cb, _) in (BODIES, BODIES[::-1]):
        q, o = [sub(v, ONE) for v in quad_oct(la)]
        s2 = mul(xa, xa, ca, ca)
        ss += [mul(c(-50), q, s2, power(x, -h)),
               mul(c(Fr(5, 84)), pol(xa, 9407, 8218, -2016), q, s2, power(x, h)),
               mul(c(-400), PI, q, s2, x),
               mul(c(10), q, s2, x, add(mul(ca, add(mul(xa, xa), mul(c(Fr(308, 3)), xa))), mul(cb, add(mul(xb, xb), mul(c(Fr(-89, 3)), xb))))),
               mul(c(-440), o, s2, xa, ca, x)]
    psi = add(psi, mul(c(3), power(mul(c(128), ETA), -1), add(*ss)))
    return amp, psi, k


def merger_frequency(k):
    r = div(pol(k, 1, "3.35411203e-2", "4.31460284e-5"), pol(k, 1, "7.54224145e-2", "2.23626859e-4"))
    return mul(c("0.3586"), power(div(X2, X1), Fr(1, 2)), r, power(mul(c(2), PI, M, GT_), -1))


def planck(f, y):
    z = mul(y, c("1.2"))
    w = sub(z, y)
    g = exp(add(div(w, sub(f, y)), div(w, sub(f, z))))
    return ir.where(ir.lt(f, y), ONE, ir.where(ir.lt(z, f), ZERO, sub(ONE, power(add(g, ONE), -1))))


def modulus(h):
    """|h| of a stored strain: its unit phase factor is removed"""
    def f(old, new):
        return ONE if ir.isfn(new, "exp") and I in ir.topo([new.args[0]]) else new
    return ir.rewrite([h], f)[0]


@check("P13", "value-number equality of the tidal strain, without and with its taper, with the stored point-particle reference extended by independently written NRTidalv2 amplitude, phase, spin-induced terms and merger frequency")
def p13(chk):
    chk.min_obl = 4
    b = bench()
    ref = refmodel.load("IMRPhenomD")[0]
    # single strain: face-on plus polarization
    ref = subst_many([ref], {INCL: ZERO})[0]
    x = power(mul(PI, M, GT_, F), Fr(2, 3))
    amp, psi, k = nrtidalv2(x)
    h = mul(ref, add(ONE, div(amp, modulus(ref))), exp(neg(mul(I, psi))))
    hp = planck(F, merger_frequency(k))
    rg = b.regions(BYNAME["IMRPhenomD_NRTidalv2[no taper]"])

    def one(a):
        lam, taper = a
        kw = dict({} if lam else {"use_lambda_tildes": False}, **({} if taper else {"no_taper": True}))
        m = Model("IMRPhenomD_NRTidalv2" + ("" if lam else "[lambda1,lambda2]") + ("" if taper else "[untapered]"), "IMRPhenomD_NRTidalv2",
                  "gen_IMRPhenomD_NRTidalv2", "gen_IMRPhenomD_NRTidalv2_hphc", BNS, kw)
        r = list(b.hphc(m))
        if lam:
            lt, dl = tildes()
            r = subst_many(r, {L1: lt, L2: dl})
        e = pols(mul(hp, h) if taper else h)
        r = principal(r, e)
        anytide(chk, "published tides", m.name, [("plus", r[0], e[0]), ("cross", r[1], e[1])], regs=rg)
        chk.analysed |= b.funcs()
    chk.par([(lam, taper) for lam in (0, 1) for taper in (0, 1)], one)


def total_momentum(old, new):
    """|J| = J_z when there is no in-plane spin and the orbit dominates: the root of its square is itself"""
    if new.op != "mon":
        return new
    k, parts = ir._mon_parts(new)
    out = [const(k)]
    for x, e in parts.items():
        k2, p2 = ir._mon_parts(x)
        if e.denominator == 2 and k2 == 1 and len(p2) == 1 and {"s1z", "f_ref"} <= set(ir.deps(x)):
            (y, j), = p2.items()
            if j == 2:
                out.append(power(y, 2 * e))
                continue
        out.append(power(x, e))
    return mul(*out)


@check("P15", "value-number equality of the precessing strain with itself under a common rotation of spins and observer and under reflection at the orbital plane, and with the aligned-spin model when the in-plane spins vanish")
def p15(chk):
    chk.min_obl = 6
    b = bench()
    A = sym("shift_a")
    a1, a2, ph = sym("a1"), sym("a2"), sym("phiRef")

    def one(a):
        name, rule = a
        m = BYNAME[name]
        hp, hc = b.hphc(m)
        chk.analysed |= b.funcs()
        if rule == "rotation":
            r = subst_many([hp, hc], {a1: add(a1, A), a2: add(a2, A), ph: sub(ph, A)})
            u = exp(mul(I, c(-2), A))
            chk.same("rotation about the orbital axis", name, [("plus", r[0], mul(u, hp)), ("cross", r[1], mul(u, hc))], BASE, regs=b.regions(m))
        elif rule == "reflection":
            r = subst_many([hp, hc], {a1: add(a1, PI), a2: add(a2, PI), INCL: sub(PI, INCL)})
            chk.same("reflection at the orbital plane", name, [("plus", r[0], hp), ("cross", r[1], neg(hc))], BASE, regs=b.regions(m))
        else:
            p = ir.rewrite(subst_many([hp, hc], {sym("s1p"): ZERO, sym("s2p"): ZERO}), total_momentum)
            q = subst_many(list(b.hphc(BYNAME["IMRPhenomD"])), {C1: sym("s1z"), C2: sym("s2z")})
            rg = ModelRegions(subst_many([q[0]], {TC: ZERO, PHIC: ZERO})[0], 1, BASE)
            avn.ZERO_ANGLE[0] = True
            l = [div(ir.diff(x, F), x) for x in (p[0], q[0])]
            chk.same("aligned limit", name, [("ratio of the polarizations", mul(p[0], q[1]), mul(p[1], q[0])),
                                             ("amplitude", mul(p[0], conj(p[0])), mul(q[0], conj(q[0])))], BASE, regs=rg)
            chk.same("aligned limit", name + " dephasing", [("second derivative of the phase", ir.diff(sub(l[0], l[1]), F), ZERO)], BASE, regs=rg)
    chk.par([(n, r) for n in ("IMRPhenomPv2", "IMRPhenomPv2_hphc") for r in ("rotation", "reflection", "aligned")], one)
    chk.assumptions.append("aligned limit: the total angular momentum points along the orbital axis (|S| < |L|)")
