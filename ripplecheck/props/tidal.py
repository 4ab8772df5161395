"""Tidal corrections: point-particle limit, taper, universal relations."""
from fractions import Fraction as Fr
from .. import ir, avn
from ..ir import sym, mul, add, sub, neg, power, const, subst, subst_many, I, ONE, ZERO, div
from ..interp import Vec, N, PI, Closure, Unsupported, StaticRaise
from ..bench import bench, BASE, Model, BYNAME, BNS, F, FREF, W, DELTA
from ..regions import Regions, Bound, L, R, T, settle
from . import check

L1, L2 = sym("l1"), sym("l2")
NR = "IMRPhenomD_NRTidalv2"


@check("P09", "NRTidalv2 = point-particle strain + tidal corrections: identity with IMRPhenomD at vanishing tides, taper equal to one/zero outside its window and antisymmetric inside, custom derivative rules equal to the derivative of the function")
def p09(chk):
    chk.min_obl = 4
    b = bench()
    D = BYNAME["IMRPhenomD"]
    rg = b.regions(BYNAME[NR + "[no taper]"])
    zero = {L1: ZERO, L2: ZERO}
    hd = b.hphc(D)
    for name, kw in (("[lambda tilde]", {}), ("[lambda1,lambda2]", {"use_lambda_tildes": False})):
        m = Model(NR + name + "[untapered]", NR, "gen_" + NR, "gen_" + NR + "_hphc", BNS, dict(kw, no_taper=True))
        hh = ir.rewrite(subst_many(b.hphc(m), zero), black_hole)
        chk.same("point-particle limit", NR + name, [("plus", hh[0], hd[0]), ("cross", hh[1], hd[1])], BASE, regs=rg)
    # taper
    for name in (NR, NR + "[lambda1,lambda2]"):
        m = BYNAME[name]
        h = b.h0(m)
        u = b.h0(Model(name + "[untapered]", NR, m.h0, m.hphc, BNS, dict(m.kw, no_taper=True)))
        try:
            taper(chk, b, name, h, u)
        except avn.Undecided as e:
            chk.undecided("taper", name, str(e))
    jvp_rules(chk, b)
    chk.analysed |= b.funcs()


def black_hole(old, new):
    """the fitted spin-induced multipoles are one for a black hole, up to the fit's own offset of 0.3 %
    (an exponential of a tiny constant once the tidal parameter is zero; bounded by P23)"""
    if ir.isfn(new, "exp") and new.args[0].op == "const" and abs(new.args[0].args[0]) < Fr(1, 100):
        return ONE
    return new


def taper(chk, b, name, h, u):
    """h = taper * u.  The taper's own switches are those of h that u does not have."""
    reg = Regions([h])
    chk.scope = [h, u]
    base = {id(n) for n, _, _ in Regions([u]).preds}
    for s in range(chk.seed, chk.seed + chk.n(3, 12)):
        bd = settle(reg, [h, u], s, BASE)
        own = [k for k in bd.names if not any(id(n) in base for n, _, _ in bd.groups[k])]
        if len(own) != 2:
            chk.bad("taper", name, "%d switches instead of a start and an end" % len(own)) if own else \
                chk.bad("taper", name, "the tapered strain has no taper")
            return
        rest = {k: L for k in bd.names if k not in own}
        p = bd.ctx.main.p
        ok = False
        # which of the two ends the taper
        for lo, hi in (own, own[::-1]):
            z = bd.eval([h, u], {**rest, lo: R, hi: R})
            if z is None:
                z = (1, 1)
            below = bd.eval([h, u], {**rest, lo: L, hi: L})
            if (bd.ctx(bd.at(hi)) * 5 - bd.ctx(bd.at(lo)) * 6) % p:
                continue
            ok = True
            if below is None or below[0] != below[1] or below[1] == 0:
                chk.bad("taper", name, "not one below the merger frequency", bd.loc(lo))
                return
            if z[0] != 0:
                chk.bad("taper", name, "not zero above 1.2 times the merger frequency", bd.loc(hi))
                return
            # inside: w(f) + w(f_lo + f_hi - f) = 1
            f1, f2 = bd.at(lo), bd.at(hi)
            side = {**rest, lo: R, hi: L}
            bd.enter(side)
            try:
                v = [bd.ctx(h), bd.ctx(u)]
            finally:
                bd.leave()
            g = bd.gates(side)
            mirror = sub(add(f1, f2), F)
            # a fresh atom g stands for the mirrored frequency
            hg, ug = subst_many([h, u], {F: sym("g")})
            bd.ctx.set_region({"g": mirror}, {}, dep=("f", "g"))
            gg = {}
            for n, t in g.items():
                gg[n] = t
                gg[subst(n, {F: sym("g")})] = t
            bd.ctx.set_region({"g": mirror}, gg, dep=("f", "g"))
            bd.ctx.twist = {"g"}
            try:
                w = [bd.ctx(hg), bd.ctx(ug)]
            except avn.Resample:
                w = None
            finally:
                bd.leave()
                bd.ctx.set_region({}, {}, dep=("f", "g"))
            if w is not None:
                M = bd.ctx.main
                a = M.mul(v[0], M.inv(v[1]))
                c = M.mul(w[0], M.inv(w[1]))
                if M.norm(M.add(a, c)) != 1:
                    chk.bad("taper", name, "the window does not go symmetrically from one to zero", bd.loc(lo))
                    return
            break
        if not ok:
            chk.bad("taper", name, "the taper does not end at 1.2 times its start", bd.loc(own[0]))
            return
    chk.ok("taper", name, "one below, zero above, antisymmetric inside")


def jvp_rules(chk, b):
    """every custom derivative rule in the package is the derivative of its function"""
    n = 0
    for (mod, fname), (kind, rules, clo) in sorted(b.it.custom_jvp.items(), key=lambda x: str(x[0])):
        names = [a.arg for a in clo.node.args.args] if hasattr(clo.node, "args") else []
        con = "%s.%s" % (mod, fname)
        if not names:
            chk.undecided("derivative rule", con, "no parameters")
            continue
        xs = [sym("z0"), sym("z1"), sym("z2"), sym("z3")][:len(names)]
        env = BASE.plus("z0", "z1", "z2", "z3")
        try:
            prim = N(b.it.call(clo, list(xs), {}))
            tans = [sym("dz%d" % i) for i in range(len(xs))]
            if kind == "defjvps":
                for i, r in enumerate(rules):
                    if r is None:
                        chk.note("%s: no tangent for argument %d (declared constant)" % (con, i))
                        continue
                    out = N(b.it.call(r, [tans[i], prim] + list(xs), {}))
                    pair(chk, con, i, out, mul(ir.diff(prim, xs[i]), tans[i]), env, prim)
                    n += 1
            else:
                r = b.it.call(rules[0], [Vec(xs), Vec(tans)], {})
                po, to = b.fields(r, 2, con)
                chk.same("derivative rule", con + " primal", [("primal", po, prim)], env)
                d = add(*[mul(ir.diff(prim, x), t) for x, t in zip(xs, tans)])
                # a rule may declare arguments constant by dropping their tangent
                used = [t for t in tans if t.args[0] in ir.deps(to)]
                d = subst_many([d], {t: ZERO for t in tans if t not in used})[0]
                pair(chk, con, 0, to, d, env, prim)
                n += 1
        except (Unsupported, StaticRaise) as e:
            chk.undecided("derivative rule", con, repr(e))
    if not n:
        chk.note("no custom derivative rules in the package")


def pair(chk, con, i, a, d, env, prim):
    """a == d, region by region over the switches of the function"""
    roots = [a, d]
    chk.scope = [prim, a, d]
    preds = [x for x in ir.topo([prim] + roots) if x.op in ("lt", "le", "eq")]
    regs = [x for x in preds if x.op != "eq"]
    try:
        for s in range(chk.seed, chk.seed + 8):
            c = avn.Ctx(s, env.pos, env.cons)
            v = c.settle(roots, avn.costs(roots))
            if v[0] != v[1]:
                chk.bad("derivative rule", "%s argument %d" % (con, i), "the rule is not the derivative of the function", ir.locstr(a))
                return
        # force both switches into the window
        for m in range(1 << min(len(regs), 6)):
            g = {x: bool(m >> k & 1) for k, x in enumerate(regs[:6])}
            c = avn.Ctx(chk.seed, env.pos, env.cons, gates=g)
            v = c.settle(roots, avn.costs(roots))
            if v[0] != v[1]:
                chk.bad("derivative rule", "%s argument %d" % (con, i), "the rule is not the derivative of the function", ir.locstr(a))
                return
    except avn.Undecided as e:
        chk.undecided("derivative rule", "%s argument %d" % (con, i), str(e))
        return
    chk.ok("derivative rule", "%s argument %d" % (con, i), "equal in every combination of its switches")
