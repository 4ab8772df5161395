"""The registry of waveform generators and the physical constants."""
import ast
import os
from fractions import Fraction as Fr
from .. import ir, fold, interp
from ..ir import sym, mul, scale
from ..interp import Vec, N, PI, StaticRaise, Unsupported, REF, MRREF, GTREF
from ..bench import bench, Bench, BASE, F, FREF, W, BYNAME, PV2, defaults
from ..core import AnalysisBroken
from . import check

REGISTRY = {"XAS": "IMRPhenomXAS", "D": "IMRPhenomD", "D_NRTidalv2": "IMRPhenomD_NRTidalv2", "Pv2": "IMRPhenomPv2"}
UNKNOWN = ["", " ", "d", "xas", "pv2", "IMRPhenomD", "IMRPhenomXAS", "IMRPhenomPv2", "IMRPhenomD_NRTidalv2", "D_NRTidal", "D_NRTidalv3",
           "NRTidalv2", "TaylorF2", "SineGaussian", "D ", " D", "Pv2_hphc", "Pv3", "P", "XP", "default", "None", "unknown", "__class__", "generators"]


@check("P14", "every registered name, called in every order and again with other parameters, lowers to the same value graph as a direct call of its model; every other name lowers to a definite raise of ValueError")
def p14(chk):
    b = bench()
    cls = b.get("ripplegw.FD_waveform.FD_waveform_generator")

    def make():
        try:
            o = b.it.call(cls, [], {})
            return b.it.attr(o, "generate_waveform")
        except (StaticRaise, Unsupported, KeyError) as e:
            raise AnalysisBroken("the generator class cannot be constructed: %r" % (e,))

    def round_(tag, meth, names, ren, f, fref):
        for k in names:
            m = BYNAME[REGISTRY[k]]
            p = defaults(m)
            th = [ir.subst(x, ren) for x in (p[x] for x in m.params)]
            con = "%s (%s)" % (k, tag)
            try:
                r = b.it.call(meth, [k, f, Vec(th), fref], {})
            except StaticRaise as e:
                chk.bad("registry", con, "raises %s" % e.kind)
                continue
            try:
                got = b.fields(r, 2, "generate_waveform")
            except AnalysisBroken as e:
                chk.bad("registry", con, str(e))
                continue
            exp = b.fields(b.call(W + m.mod + "." + m.hphc, f, Vec(th), fref), 2, m.hphc)
            chk.same("registry", con, [("plus", got[0], exp[0]), ("cross", got[1], exp[1])], BASE.plus("f2", "f_ref2", "M2", "D2"))
    ren = {sym(x): sym(x + "2") for x in ("M", "D", "tc", "phic", "incl", "chi1", "chi2", "l1", "l2", "delta", "phiRef")}
    o = make()
    round_("first calls", o, list(REGISTRY), {}, F, FREF)
    round_("again, other parameters", o, list(REGISTRY)[::-1], ren, F, sym("f_ref2"))
    round_("second object", make(), list(REGISTRY), ren, F, FREF)
    for meth, tag in ((o, "used object"), (make(), "new object")):
        for k in UNKNOWN:
            con = "%r on a %s" % (k, tag)
            p = defaults(BYNAME["IMRPhenomD"])
            try:
                r = b.it.call(meth, [k, F, Vec([p[x] for x in BYNAME["IMRPhenomD"].params]), FREF], {})
                chk.bad("unknown model", con, "returns a value instead of raising ValueError")
            except StaticRaise as e:
                chk.expect(e.kind == "ValueError", "unknown model", con, "raises %s" % e.kind)
            except Unsupported as e:
                chk.undecided("unknown model", con, repr(e))
    chk.analysed |= b.funcs()
    chk.min_obl = 12 + len(UNKNOWN)


CONSTS = {
    "EulerGamma": REF["EULERGAMMA"], "MSUN": REF["MSUN"], "MRSUN": MRREF, "G": REF["G"], "C": REF["C"], "PI": REF["PI"],
    "TWO_PI": 2 * REF["PI"], "gt": GTREF, "m_per_Mpc": REF["MPC"], "clightGpc": REF["C"] / (1000 * REF["MPC"]),
}
DERIVED = {
    "TWO_PI": ("2 PI", lambda c: 2 * c["PI"]),
    "gt": ("G MSUN / C^3", lambda c: c["G"] * c["MSUN"] / c["C"] ** 3),
    "MRSUN": ("G MSUN / C^2", lambda c: c["G"] * c["MSUN"] / c["C"] ** 2),
    "clightGpc": ("C / (1000 m_per_Mpc)", lambda c: c["C"] / (1000 * c["m_per_Mpc"])),
}
SPECIAL = [("pi", REF["PI"]), ("2 pi", 2 * REF["PI"]), ("pi/2", REF["PI"] / 2), ("Euler's gamma", REF["EULERGAMMA"]), ("c", REF["C"]), ("G", REF["G"]),
           ("the solar mass", REF["MSUN"]), ("the solar mass in metres", MRREF), ("the solar mass in seconds", GTREF), ("a megaparsec", REF["MPC"])]


def plain_constants():
    """ripplegw.constants lowered with every literal as written, none read as the constant it renders"""
    named = interp._NAMED[:], dict(interp._NAMEDF)
    interp._NAMED.clear()
    interp._NAMEDF.clear()
    try:
        return interp.Interp().module("ripplegw.constants")
    finally:
        interp._NAMED.extend(named[0])
        interp._NAMEDF.update(named[1])


@check("P16", "constant folding of every public constant against its reference value and of the derived ones against their definition; every float literal of the package that approximates one of them without being it is reported")
def p16(chk):
    m = plain_constants()
    vals = {}
    for k, ref in CONSTS.items():
        if k not in m.env.vars:
            chk.bad("constant", k, "is gone")
            continue
        try:
            v = vals[k] = fold.fold(N(m.env.vars[k]))
        except (fold.NotConstant, Unsupported) as e:
            chk.undecided("constant", k, str(e))
            continue
        chk.expect(fold.close(v, fold.dec(ref), fold.D("1e-12")), "constant", k, "folds to %.15g, reference %.15g" % (v, fold.dec(ref)), "src/ripplegw/constants.py")
    for k, (txt, f) in DERIVED.items():
        try:
            chk.expect(fold.close(vals[k], f(vals)), "consistency", "%s = %s" % (k, txt), "", "src/ripplegw/constants.py")
        except KeyError:
            pass
    literals(chk)
    chk.min_obl = 14


def literals(chk):
    root = os.path.join(interp.SRC, "ripplegw")
    n = 0
    for d, ds, fs in sorted(os.walk(root)):
        ds[:] = sorted(x for x in ds if x != "__pycache__")
        for fn in sorted(fs):
            if not fn.endswith(".py"):
                continue
            p = os.path.join(d, fn)
            with open(p) as fh:
                src = fh.read()
            for x in ast.walk(ast.parse(src)):
                if isinstance(x, ast.Constant) and isinstance(x.value, float) and x.value == x.value and abs(x.value) < 1e300:
                    n += 1
                    v = Fr(x.value)
                    seg = ast.get_source_segment(src, x) or ""
                    if sum(c.isdigit() for c in seg.lower().split("e")[0]) < 5:
                        continue        # a rough number, not a rendering of a constant
                    for name, ref in SPECIAL:
                        rel = abs(abs(v) / ref - 1)
                        if Fr(1, 10 ** 14) < rel < Fr(1, 10 ** 4):
                            chk.bad("literal", "%s in %s" % (seg, os.path.relpath(p, root)), "approximates %s to only %.1g" % (name, rel),
                                    "%s:%d" % (os.path.relpath(p, "/repo"), x.lineno))
    chk.ok("literal", "%d float literals" % n, "none is a truncated rendering of a physical constant")
