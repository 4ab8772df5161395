"""Overlaps of waveforms and the samplers of binary parameters."""
from fractions import Fraction as Fr
from .. import ir
from ..ir import sym, mul, add, sub, neg, power, const, subst_many, subst, div, exp, I, ONE, ZERO
from ..interp import N, Vec, PI, Builtin, GRIDS, StaticRaise, Unsupported
from ..bench import bench, BASE, F, Env
from ..core import AnalysisBroken
from . import check

GRIDS.update(("z:h1", "z:h2", "Sn"))
H1, H2, SN, DT = sym("z:h1"), sym("z:h2"), sym("Sn"), sym("dt")
PL, PH = sym("padl"), sym("padh")
K = sym("k")


def conj(n):
    from ..interp import conj as c
    return c(n)


@check("P18", "value-number equality (reductions modelled lane-wise, the inverse transform as a unitary sum) of the lowered overlaps with their definition and under relabelling, rescaling, phase rotation and time shifts; callables reduce to arrays; pad lengths")
def p18(chk):
    b = bench()
    env = BASE.plus("Sn")
    A = lambda *x: N(b.call("ripplegw.get_phase_maximized_inner_product_arr", *x))
    B_ = lambda *x: N(b.call("ripplegw.get_match_arr", *x))
    a = A(DT, F, SN, H1, H2)
    m = B_(PL, PH, SN, H1, H2)
    w = lambda n: whole(n)
    S1 = ir.mk("fn:sum", (w(div(power(ir.abs_(H1), 2), SN)),))
    S2 = ir.mk("fn:sum", (w(div(power(ir.abs_(H2), 2), SN)),))
    nrm = power(mul(power(S1, Fr(1, 2)), power(S2, Fr(1, 2))), -1)
    ip = ir.mk("fn:sum", (w(div(mul(conj(H1), H2, exp(mul(const(2), I, PI, F, DT))), SN)),))
    chk.same("definition", "phase-maximized inner product", [("value", a, mul(ir.abs_(ip), nrm))], env)
    cc = ir.mk("fn:concat", (PL, w(div(mul(conj(H1), H2), SN)), PH))
    mm = b.it.reduce("max", ir.abs_(mul(ir.fn("len", cc), ir.mk("fn:ifft", (cc,)))))
    # the pads are arrays of zeros
    z = {PL: ZERO, PH: ZERO}
    chk.same("definition", "match", [("value", subst(m, z), subst(mul(mm, nrm), z))], env)
    for n in ir.topo([m]):
        if n.op == "fn:concat" and {PL, PH} & set(n.args):
            chk.expect(n.args[0] is PL and n.args[-1] is PH and n.args.count(PL) == n.args.count(PH) == 1, "padding", "match",
                       "the padded spectrum is %s" % ir.show(n, 1), ir.locstr(n))
    for nm, r in (("phase-maximized inner product", a), ("match", subst(m, z))):
        t = lambda mp: subst(r, both(mp))
        chk.same("relabelling", nm, [("value", t({H1: H2, H2: H1, DT: neg(DT)}), r)], env)
        chk.same("rescaling", nm, [("first strain", t({H1: mul(K, H1)}), r), ("second strain", t({H2: mul(K, H2)}), r), ("noise", t({SN: mul(K, SN)}), r)], env)
        ph = exp(mul(I, sym("phi0")))
        chk.same("phase", nm, [("first strain", t({H1: mul(ph, H1)}), r), ("second strain", t({H2: mul(ph, H2)}), r)], env)
    tau = sym("tau")
    sh = exp(mul(const(-2), I, PI, F, tau))
    chk.same("time shift", "phase-maximized inner product", [
        ("second strain", subst(a, both({H2: mul(sh, H2)})), subst(a, {DT: sub(DT, tau)})),
        ("first strain", subst(a, both({H1: mul(sh, H1)})), subst(a, {DT: add(DT, tau)}))], env)
    self_ = subst(subst(a, both({H2: H1})), {DT: ZERO})
    chk.same("self-overlap", "phase-maximized inner product", [("is one", self_, ONE),
             ("norm", power(S1, Fr(1, 2)), power(S1, Fr(1, 2)))], env)     # the norm is a positive number
    callables(chk, b, env, A, B_)
    pads(chk, b)
    chk.analysed |= b.funcs()
    chk.min_obl = 15


def whole(n):
    from ..interp import to_whole
    return to_whole(n)


def both(mp):
    """the same substitution on elementwise and whole-array symbols"""
    out = dict(mp)
    for k, v in mp.items():
        if k.args[0] in GRIDS:
            out[sym("@" + k.args[0])] = whole(v)
    return out


def callables(chk, b, env, A, B_):
    T1, T2 = sym("th1"), sym("th2")

    def poly(tag, pos):
        c = sym(tag)
        return Builtin(lambda args, kw: mul(c, add(mul(N(args[0]), N(args[1])), N(args[1]) if pos else mul(N(args[0]), N(args[0])))), tag)
    amp1, psi1, amp2, psi2 = poly("ca1", 1), poly("cp1", 0), poly("ca2", 1), poly("cp2", 0)
    S = Builtin(lambda args, kw: mul(sym("cs"), N(args[0])), "Sn")
    env = env.plus("th1", "th2", "ca1", "ca2", "cs")
    call = lambda f, *x: N(f.f(list(x), {}))
    s = call(S, F)
    for lab, a2, p2 in (("own functions", amp2, psi2), ("first waveform's functions", None, None), ("amplitude given", amp2, None), ("phase given", None, psi2)):
        h1 = mul(call(amp1, F, T1), exp(mul(I, call(psi1, F, T1))))
        h2 = mul(call(a2 or amp1, F, T2), exp(mul(I, call(p2 or psi1, F, T2))))
        g = N(b.call("ripplegw.get_phase_maximized_inner_product", DT, F, S, T1, T2, amp1, psi1, a2, p2))
        chk.same("callables", "phase-maximized inner product, second waveform: " + lab, [("value", g, A(DT, F, s, h1, h2))], env)
        g = N(b.call("ripplegw.get_match", F, PL, PH, S, T1, T2, amp1, psi1, a2, p2))
        e = B_(PL, PH, s, h1, h2)
        z = {PL: ZERO, PH: ZERO}
        chk.same("callables", "match, second waveform: " + lab, [("value", subst(g, z), subst(e, z))], env)


def pads(chk, b):
    r = b.it.iterate(b.call("ripplegw.get_eff_pads", F), hint=2)
    if len(r) != 2:
        chk.bad("pads", "get_eff_pads", "returns %d values" % len(r))
        return
    lo, hi = N(r[0]), N(r[1])
    w = whole(F)
    f0, f1 = ir.fn("gather", w, ZERO), ir.fn("gather", w, const(-1))
    df = div(sub(f1, f0), sub(ir.fn("len", w), ONE))
    for lab, x, e in (("low", lo, div(f0, df)), ("high", hi, sub(div(f1, df), const(2)))):
        if not ir.isfn(x, "filled") or x.args[1] is not ZERO:
            chk.bad("pads", lab, "is not an array of zeros of a grid dependent length: %s" % ir.show(x, 3), ir.locstr(x))
            continue
        # on the grids the function is defined for, the quotients are whole numbers
        n = ir.rewrite([x.args[0]], lambda o, v: v.args[0] if v.op in ("fn:toint", "fn:floor", "fn:round") else v)[0]
        chk.same("pads", lab + " length", [("number of zeros", n, e)], BASE)


@check("P19", "the lowered samplers: every entry is lower + (upper - lower) * u of one uniform draw with its own range and the caller's key; the ordered sampler is the exact maximum and minimum of one pair")
def p19(chk):
    b = bench()
    lo1, hi1, lo2, hi2 = (sym(x) for x in ("lo1", "hi1", "lo2", "hi2"))
    rng = [(lo1, hi1), (lo2, hi2)]
    env = Env(BASE.pos, dict(BASE.cons))
    key = sym("key")
    for fn_, ordered in (("get_M_eta_sampler", False), ("get_m1_m2_sampler", True)):
        s = b.call("ripplegw." + fn_, (lo1, hi1), (lo2, hi2))
        draws = {}
        for tag, k, n in (("", key, 4), ("second call", sym("key2"), 3)):
            con = fn_ + (" " + tag if tag else "")
            try:
                r = b.it.call(s, [k, n], {})
            except (StaticRaise, Unsupported) as e:
                chk.undecided("shape", con, "%s: %s" % (type(e).__name__, e))
                continue
            chk.scope = [x for x in flat(r) if isinstance(x, ir.Node)]
            if not (isinstance(r, Vec) and len(r) == n and all(isinstance(x, Vec) and len(x) == 2 for x in r.items)):
                chk.bad("shape", con, "is not an array of %d pairs" % n, "src/ripplegw/__init__.py")
                continue
            chk.ok("shape", con, "%d pairs" % n)
            us = []
            for i, row in enumerate(r.items):
                x, y = (N(q) for q in row.items)
                u = sorted({q for q in ir.topo([x, y]) if q.op.startswith("fn:random:")}, key=lambda q: q.id)
                us += u
                if len(u) != 2 or any("uniform" not in q.op for q in u):
                    chk.bad("draws", "%s row %d" % (con, i), "uses the draws %s" % [ir.show(q, 2) for q in u], ir.locstr(x))
                    continue
                if any(k not in ir.topo([q]) for q in u):
                    chk.bad("key", "%s row %d" % (con, i), "a draw does not use the caller's key", ir.locstr(u[0]))
                    continue
                ok = False
                for p, q in ((u[0], u[1]), (u[1], u[0])):
                    e = [add(lo1, mul(sub(hi1, lo1), sym("u1"))), add(lo2, mul(sub(hi2, lo2), sym("u2")))]
                    g = subst_many([x, y], {p: sym("u1"), q: sym("u2")})
                    if ordered:
                        e = [ir.maximum(*e), ir.minimum(*e)]
                    if equal(chk, g, e, env):
                        ok = True
                        break
                chk.expect(ok, "order and range" if ordered else "range", "%s row %d" % (con, i), "", ir.locstr(x))
            chk.expect(len(set(us)) == 2 * n, "independence", con, "%d distinct draws for %d numbers" % (len(set(us)), 2 * n), "src/ripplegw/__init__.py")
    chk.analysed |= b.funcs()
    chk.min_obl = 12


def flat(r):
    if isinstance(r, Vec):
        return [y for x in r.items for y in flat(x)]
    return [N(r)]


def equal(chk, g, e, env):
    from .. import avn
    for s in range(1, chk.n(9, 30)):
        c = avn.Ctx(s, env.pos, env.cons)
        v = c.settle(list(g) + list(e), {})
        if v[:2] != v[2:]:
            return False
    return True
