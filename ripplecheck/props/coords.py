"""Coordinate maps between masses, spins and tidal parameters."""
from fractions import Fraction as Fr
from .. import ir
from ..ir import sym, mul, add, sub, neg, scale, power, const, subst, subst_many, ONE, ZERO, div
from ..interp import Vec, N, PI
from .published import tildes
from ..bench import bench, BASE, M, DELTA, MC, ETA, M1, M2
from . import check

L1, L2, LT, DLT, Q = sym("l1"), sym("l2"), sym("lt"), sym("dlt"), sym("q")
R = "ripplegw."


def Q_():
    return div(sub(ONE, DELTA), add(ONE, DELTA))


@check("P06", "the coordinate maps compose to the identity: value-number equality of each composition with the identity")
def p06(chk):
    chk.min_obl = 12
    b = bench()
    env = BASE

    def call2(name, args):
        return b.fields(b.call(R + name, Vec(args)), 2, name)
    # masses
    m1, m2 = call2("Mc_eta_to_ms", [MC, ETA])
    chk.same("round-trip", "Mc_eta_to_ms", [("m1", m1, M1), ("m2", m2, M2)], env)
    mc, eta = call2("ms_to_Mc_eta", [M1, M2])
    chk.same("round-trip", "ms_to_Mc_eta", [("Mc", mc, MC), ("eta", eta, ETA)], env)
    mc2, eta2 = call2("ms_to_Mc_eta", list(call2("Mc_eta_to_ms", [MC, ETA])))
    chk.same("round-trip", "ms_to_Mc_eta o Mc_eta_to_ms", [("Mc", mc2, MC), ("eta", eta2, ETA)], env)
    a, c = call2("ms_to_Mc_eta", [sym("m2"), sym("m1")])
    d, e = call2("ms_to_Mc_eta", [sym("m1"), sym("m2")])
    chk.same("exchange", "ms_to_Mc_eta", [("Mc", a, d), ("eta", c, e)], env)
    # m1 >= m2: the returned difference is the positive root
    chk.same("ordering", "Mc_eta_to_ms", [("m1-m2", sub(m1, m2), mul(M, DELTA))], env)
    # tidal parameters
    lt = call2("lambdas_to_lambda_tildes", [L1, L2, M1, M2])
    back = call2("lambda_tildes_to_lambdas", [lt[0], lt[1], M1, M2])
    chk.same("round-trip", "lambda_tildes_to_lambdas o lambdas_to_lambda_tildes", [("lambda1", back[0], L1), ("lambda2", back[1], L2)], env)
    lm = call2("lambda_tildes_to_lambdas", [LT, DLT, M1, M2])
    fw = call2("lambdas_to_lambda_tildes", [lm[0], lm[1], M1, M2])
    chk.same("round-trip", "lambdas_to_lambda_tildes o lambda_tildes_to_lambdas", [("lambda_tilde", fw[0], LT), ("delta_lambda_tilde", fw[1], DLT)], env)
    ltq = call2("lambdas_to_lambda_tildes_from_q", [L1, L2, Q_()])
    chk.same("from-q agreement", "lambdas_to_lambda_tildes_from_q", [("lambda_tilde", ltq[0], lt[0]), ("delta_lambda_tilde", ltq[1], lt[1])], env)
    lmq = call2("lambda_tildes_to_lambdas_from_q", [LT, DLT, Q_()])
    chk.same("from-q agreement", "lambda_tildes_to_lambdas_from_q", [("lambda1", lmq[0], lm[0]), ("lambda2", lmq[1], lm[1])], env)
    # published definition of the dominant tidal parameter (Wade et al. 2014, eq. 5), in masses
    ex = mul(const(Fr(16, 13)), div(add(
        mul(add(M1, scale(M2, 12)), power(M1, 4), L1), mul(add(M2, scale(M1, 12)), power(M2, 4), L2)), power(M, 5)))
    chk.same("definition", "lambda_tilde", [("lambda_tilde", lt[0], ex)], env)
    chk.same("definition", "delta_lambda_tilde", [("delta_lambda_tilde", lt[1], tildes()[1])], env)
    # equal bodies: lambda_tilde = lambda and delta_lambda_tilde = 0
    z = {DELTA: ZERO, L2: L1}
    e0, e1 = subst_many(lt, z)
    chk.same("equal bodies", "lambdas_to_lambda_tildes", [("lambda_tilde", e0, L1), ("delta_lambda_tilde", e1, ZERO)], env)
    # body exchange of the tidal pair
    # effective spin
    c1, c2 = sym("chi1"), sym("chi2")
    ce = N(b.call(R + "get_chi_eff", Vec([M1, M2, c1, c2])))
    chk.same("definition", "get_chi_eff", [("chi_eff", mul(ce, M), add(mul(M1, c1), mul(M2, c2)))], env)
    cs = N(b.call(R + "get_chi_eff", Vec([M2, M1, c2, c1])))
    chk.same("exchange", "get_chi_eff", [("chi_eff", ce, cs)], env)
    # innermost stable orbit: 6^(3/2) pi G m f / c^3 = 1
    fi = N(b.call(R + "get_f_isco", sym("m1")))
    G, C = N(b.get("ripplegw.constants.G")), N(b.get("ripplegw.constants.C"))
    chk.same("definition", "get_f_isco", [("f_isco", mul(power(const(6), Fr(3, 2)), PI, fi, sym("m1"), G, power(C, -3)), ONE)], env)
    chk.analysed |= b.funcs()
