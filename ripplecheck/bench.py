"""The analysed program: lowering of the public entry points to value graphs."""
from fractions import Fraction as Fr
from . import ir, interp
from .ir import Node, const, sym, mul, add, sub, scale, power, ONE, ZERO
from .interp import Interp, Vec, N, GRIDS, StaticRaise, Unsupported
from .core import AnalysisBroken

GRIDS.update(("f", "g", "t"))
W = "ripplegw.waveforms."


class Env:
    """sign and range facts about the atoms of a property"""

    def __init__(self, pos=(), cons=None):
        self.pos = set(pos)
        self.cons = dict(cons or {})

    def plus(self, *pos, **cons):
        e = Env(self.pos | set(pos), self.cons)
        e.cons.update(cons)
        return e


_unit = [lambda v, w: w.leg(v) == 1 and w.leg(1 - v) == 1 and w.leg(1 + v) == 1]
BASE = Env(
    pos={"M", "D", "f", "g", "f_ref", "f_ref2", "s", "k", "l1", "l2", "lt", "s1p", "s2p", "hrss", "Q", "f0", "Mc", "m1", "m2", "q", "t60"},
    cons={"delta": _unit, "delta2": _unit, "ecc": _unit},
)

M, DELTA = sym("M"), sym("delta")
ETA = mul(const(Fr(1, 4)), sub(ONE, DELTA), add(ONE, DELTA))
MC = mul(M, power(ETA, Fr(3, 5)))
M1 = scale(mul(M, add(ONE, DELTA)), Fr(1, 2))
M2 = scale(mul(M, sub(ONE, DELTA)), Fr(1, 2))
F, FREF = sym("f"), sym("f_ref")

BBH = ("Mc", "eta", "chi1", "chi2", "D", "tc", "phic", "incl")
BNS = ("Mc", "eta", "chi1", "chi2", "l1", "l2", "D", "tc", "phic", "incl")
PREC = ("m1", "m2", "s1x", "s1y", "s1z", "s2x", "s2y", "s2z", "D", "tc", "phiRef", "incl")
PRECH = ("Mc", "eta") + PREC[2:]


class Model:
    def __init__(self, name, mod, h0, hphc, params, kw=None, fref=True):
        self.name, self.mod, self.h0, self.hphc, self.params, self.kw, self.fref = name, mod, h0, hphc, params, kw or {}, fref
        self.base = "IMRPhenomD_NRTidalv2[no taper]" if mod == "IMRPhenomD_NRTidalv2" else name

    def __repr__(self):
        return self.name


MODELS = [
    Model("IMRPhenomD", "IMRPhenomD", "gen_IMRPhenomD", "gen_IMRPhenomD_hphc", BBH),
    Model("IMRPhenomXAS", "IMRPhenomXAS", "gen_IMRPhenomXAS", "gen_IMRPhenomXAS_hphc", BBH),
    Model("IMRPhenomD_NRTidalv2", "IMRPhenomD_NRTidalv2", "gen_IMRPhenomD_NRTidalv2", "gen_IMRPhenomD_NRTidalv2_hphc", BNS),
    Model("IMRPhenomD_NRTidalv2[lambda1,lambda2]", "IMRPhenomD_NRTidalv2", "gen_IMRPhenomD_NRTidalv2",
          "gen_IMRPhenomD_NRTidalv2_hphc", BNS, {"use_lambda_tildes": False}),
    Model("IMRPhenomD_NRTidalv2[no taper]", "IMRPhenomD_NRTidalv2", "gen_IMRPhenomD_NRTidalv2",
          "gen_IMRPhenomD_NRTidalv2_hphc", BNS, {"use_lambda_tildes": False, "no_taper": True}),
    Model("TaylorF2", "TaylorF2", "gen_TaylorF2", "gen_TaylorF2_hphc", BNS),
    Model("TaylorF2[lambda1,lambda2]", "TaylorF2", "gen_TaylorF2", "gen_TaylorF2_hphc", BNS, {"use_lambda_tildes": False}),
]
PV2 = Model("IMRPhenomPv2", "IMRPhenomPv2", None, "gen_IMRPhenomPv2", PREC)
PV2H = Model("IMRPhenomPv2_hphc", "IMRPhenomPv2", None, "gen_IMRPhenomPv2_hphc", PRECH)
ALIGNED = MODELS
ALL = MODELS + [PV2, PV2H]
BYNAME = {m.name: m for m in ALL}


def defaults(model):
    v = {"Mc": MC, "eta": ETA, "m1": M1, "m2": M2}
    # precessing spins in cylindrical form: the in-plane magnitude is visible
    for i in "12":
        p, a = sym("s%sp" % i), sym("a%s" % i)
        v["s%sx" % i] = mul(p, ir.cos(a))
        v["s%sy" % i] = mul(p, ir.sin(a))
    out = {}
    for k in model.params:
        out[k] = v.get(k, sym(k))
    return out


class Bench:
    def __init__(self):
        self.it = Interp()
        try:
            self.it.module("ripplegw")
            for m in ("IMRPhenomD", "IMRPhenomXAS", "IMRPhenomD_NRTidalv2", "TaylorF2", "IMRPhenomPv2", "SineGaussian"):
                if self.it.module(W + m) is None:
                    raise AnalysisBroken("module %s%s not found" % (W, m))
            for m in ("ripplegw.noise", "ripplegw.constants", "ripplegw.FD_waveform"):
                if self.it.module(m) is None:
                    raise AnalysisBroken("module %s not found" % m)
        except Unsupported as e:
            raise Unsupported("%s, while lowering the package at %s" % (e, ir.CUR[0]))
        except (StaticRaise, SyntaxError) as e:
            raise AnalysisBroken("lowering of the package failed: %r" % (e,))
        self.cache = {}
        self.regs = {}
        self.module_events = list(self.it.events)
        self.it.events.clear()
        self.it.share()

    def get(self, dotted):
        try:
            return self.it.getattr_mod(dotted)
        except KeyError:
            raise AnalysisBroken("anchor %s does not exist" % dotted)

    def call(self, dotted, *args, **kw):
        f = self.get(dotted)
        try:
            return self.it.call(f, list(args), kw)
        except Unsupported as e:
            raise Unsupported("%s, while lowering %s at %s" % (e, dotted, ir.CUR[0]))

    def fields(self, r, n, what):
        try:
            xs = self.it.iterate(r, hint=n)
        except Unsupported:
            xs = [r]
        if len(xs) != n:
            raise AnalysisBroken("%s returns %d values, %d expected" % (what, len(xs), n))
        return [N(x) for x in xs]

    def hphc(self, model, f=F, fref=FREF, fixed=None, **over):
        """(hp, hc) with the default symbolic parameters, overridden by name"""
        p = defaults(model)
        p.update(over)
        th = [p[k] for k in model.params]
        key = ("hphc", model.name, tuple(sorted(model.kw.items())), f, fref, tuple(th))
        r = self.cache.get(key)
        if r is None:
            r = self.call(W + model.mod + "." + model.hphc, f, Vec(th), fref, **model.kw)
            r = ir.lift(self.fields(r, 2, model.hphc), f.args[0]) if f.op == 'sym' else self.fields(r, 2, model.hphc)
            self.cache[key] = r
        return r

    def regions(self, model):
        """frequency regions of a model (ordered along its smooth joins), or None when unresolved"""
        r = self.regs.get(model.base)
        if r is None:
            from . import regions
            from .avn import Undecided
            # the taper only multiplies the strain: its switches need no particular order
            hp, hc = self.hphc(BYNAME[model.base])
            z = {sym("tc"): ZERO, sym("phic"): ZERO}
            try:
                r = regions.ModelRegions(ir.subst_many([hp], z)[0], 1, BASE, last_jump=model.base != "IMRPhenomD" and model.mod == "IMRPhenomD_NRTidalv2")
            except Undecided as e:
                r = e
            self.regs[model.base] = r
        return None if isinstance(r, Exception) else r

    def h0(self, model, f=F, fref=FREF, **over):
        p = defaults(model)
        p.update(over)
        names = model.params[:-1]
        th = [p[k] for k in names]
        key = ("h0", model.name, tuple(sorted(model.kw.items())), f, fref, tuple(th))
        r = self.cache.get(key)
        if r is None:
            r = N(self.call(W + model.mod + "." + model.h0, f, Vec(th), fref, **model.kw))
            if f.op == "sym":
                r = ir.lift([r], f.args[0])[0]
            self.cache[key] = r
        return r

    def funcs(self):
        return {"%s.%s" % c for c in self.it.calls}


_b = []


def bench():
    if not _b:
        _b.append(Bench())
    return _b[0]
