"""Effects: what the public functions do besides computing their value (tracing hazards, state, input mutation)."""
from fractions import Fraction as Fr
from .. import ir, avn
from ..ir import sym, mul, add, neg, sub, subst, diff_many, ONE, ZERO
from ..interp import Vec, N, PI, Builtin, Closure, StaticRaise, Unsupported, GRIDS
from ..bench import bench, BASE, MODELS, PV2, PV2H, ALL, BYNAME, F, FREF, W, defaults
from ..core import AnalysisBroken
from . import check

GRIDS.update(("z:h1", "z:h2", "Sn"))
R = "ripplegw."
#: host-side set-up helpers: their result's shape depends on the values of the grid by design
HOST_ONLY = {"get_eff_pads", "get_M_eta_sampler", "get_m1_m2_sampler"}


GEN = "ripplegw.FD_waveform.FD_waveform_generator"
_gen = []


def resolve(b, name):
    """the function of a public name; methods are taken of one object that lives throughout"""
    if not name.startswith(GEN + "."):
        return b.it.getattr_mod(name)
    if not _gen:
        _gen.append(b.it.call(b.it.getattr_mod(GEN), [], {}))
    return b.it.attr(_gen[0], name[len(GEN) + 1:])


def pure(name):
    """a function of the caller's: of the grid, or of the grid and parameters"""
    return Builtin(lambda args, kw: ir.fn(name, *[N(x) for a in args for x in (a.items if isinstance(a, Vec) else [a])]), name)


def entries(b):
    """(label, dotted name, arguments, keywords): the public functions with symbolic arguments owned by the caller"""
    out = []
    for m in ALL:
        p = defaults(m)
        th = [p[k] for k in m.params]
        if m.hphc:
            out.append(("%s: %s" % (m.name, m.hphc), W + m.mod + "." + m.hphc, [F, th, FREF], m.kw))
        if m.h0:
            out.append(("%s: %s" % (m.name, m.h0), W + m.mod + "." + m.h0, [F, th[:-1], FREF], m.kw))
    out.append(("SineGaussian", W + "SineGaussian.gen_SineGaussian_hphc", [sym("t"), [sym(x) for x in ("Q", "f0", "hrss", "phase", "ecc")]], {}))
    S = lambda *n: [sym(x) for x in n]
    out += [
        ("Mc_eta_to_ms", R + "Mc_eta_to_ms", [S("Mc", "eta")], {}),
        ("ms_to_Mc_eta", R + "ms_to_Mc_eta", [S("m1", "m2")], {}),
        ("lambdas_to_lambda_tildes_from_q", R + "lambdas_to_lambda_tildes_from_q", [S("l1", "l2", "q")], {}),
        ("lambdas_to_lambda_tildes", R + "lambdas_to_lambda_tildes", [S("l1", "l2", "m1", "m2")], {}),
        ("lambda_tildes_to_lambdas", R + "lambda_tildes_to_lambdas", [S("lt", "dlt", "m1", "m2")], {}),
        ("lambda_tildes_to_lambdas_from_q", R + "lambda_tildes_to_lambdas_from_q", [S("lt", "dlt", "q")], {}),
        ("get_chi_eff", R + "get_chi_eff", [S("m1", "m2", "chi1", "chi2")], {}),
        ("get_f_isco", R + "get_f_isco", [sym("M")], {}),
        ("get_phase_maximized_inner_product_arr", R + "get_phase_maximized_inner_product_arr", [sym("dt"), F, sym("Sn"), sym("z:h1"), sym("z:h2")], {}),
        ("get_match_arr", R + "get_match_arr", [sym("padl"), sym("padh"), sym("Sn"), sym("z:h1"), sym("z:h2")], {}),
        ("get_eff_pads", R + "get_eff_pads", [F], {}),
        ("get_phase_maximized_inner_product", R + "get_phase_maximized_inner_product",
         [sym("dt"), F, pure("Sn"), S("Mc", "eta"), S("m1", "m2"), pure("amp1"), pure("psi1"), pure("amp2"), pure("psi2")], {}),
        ("get_match", R + "get_match", [F, sym("padl"), sym("padh"), pure("Sn"), S("Mc", "eta"), S("m1", "m2"), pure("amp1"), pure("psi1"), pure("amp2"), pure("psi2")], {}),
    ]
    for k, nm in (("XAS", "IMRPhenomXAS"), ("Pv2", "IMRPhenomPv2")):
        m = BYNAME[nm]
        p = defaults(m)
        out.append(("generate_waveform %s" % k, GEN + ".generate_waveform", [k, F, [p[x] for x in m.params], FREF], {}))
    for k, x in list(b.it.module(R + "noise").env.vars.items()):
        if k.startswith("Sn_") and isinstance(x, (Closure, Builtin)):
            out.append((k, R + "noise." + k, [F], {}))
    x, th = sym("f"), [sym(k) for k in ("m1", "m2", "chi1", "chi2", "l1", "l2")]
    N_ = W + "IMRPhenomD_NRTidalv2."
    for fn_, args in (("get_tidal_amplitude", [x, th, sym("kappa"), sym("g")]), ("get_tidal_phase", [x, th, sym("kappa")]),
                      ("get_spin_phase_correction", [x, th]), ("get_planck_taper", [x, sym("fm")]), ("get_amp0_lal", [sym("M"), sym("g")])):
        out.append((fn_, N_ + fn_, args, {"?": 1}))
    U = W + "IMRPhenom_tidal_utils."
    for fn_, args in (("get_quadparam_octparam", [sym("l1")]), ("get_kappa", [th])):
        out.append((fn_, U + fn_, args, {"?": 1}))
    return out


def lower(b, name, args, kw):
    """(result or None, events, failure): the function lowered with arguments the caller owns"""
    it = b.it
    kw = dict(kw)
    helper = kw.pop("?", None)
    it.caller_owned = {}
    a = []
    for x in args:
        if isinstance(x, list):
            a.append(Vec(x, owner="caller"))
        else:
            if isinstance(x, ir.Node) and x.op == "sym" and x.args[0] in GRIDS:
                it.caller_owned[x] = "the caller's array %s" % x.args[0]
            a.append(x)
    try:
        f = resolve(b, name)
    except KeyError:
        if helper:
            return None, [], "is gone"
        raise AnalysisBroken("anchor %s does not exist" % name)
    it.events.clear()
    r, fail = None, None
    cs = list(it.callstack)
    try:
        r = it.call(f, a, dict(kw))
    except StaticRaise as e:
        fail = "raises %s" % e.kind
    except Unsupported as e:
        fail = "not analysable: %s at %s" % (e, ir.CUR[0])
    it.callstack, it.frames = cs, 0
    it.caller_owned = {}
    ev, it.events = list(it.events), []
    return r, ev, fail


TRACE = {
    "traced-branch": "Python control flow decides on a traced value",
    "host-coercion": "a traced value is converted on the host",
    "np-on-traced": "a NumPy/SciPy/math function is applied to a traced value",
    "dynamic-shape": "an array shape depends on a traced value",
    "cache-on-traced": "a memoised function is called with arrays",
    "no-reverse-mode": "a loop without a reverse-mode derivative",
}


def nodes_of(b, r):
    out = []

    def rec(x):
        if isinstance(x, ir.Node):
            out.append(x)
        elif isinstance(x, Vec):
            [rec(i) for i in x.items]
        elif isinstance(x, (list, tuple)):
            [rec(i) for i in x]
        elif isinstance(x, dict):
            [rec(i) for i in x.values()]
    rec(r)
    return out


CUT = ("fn:stopgrad", "fn:toint", "fn:round", "fn:floor", "fn:ceil", "fn:trunc", "fn:rint", "floor", "round")


def valued(n):
    """children a value (not a decision or an array index) flows through"""
    if n.op == "where":
        return n.args[1:]
    if n.op == "fn:gather":
        return n.args[:1]
    if n.op in ("lt", "le", "eq", "not", "and", "or"):
        return ()
    return ir.children(n)


def value_nodes(roots):
    seen, st = set(), list(roots)
    while st:
        n = st.pop()
        if n not in seen:
            seen.add(n)
            st += [c for c in valued(n) if isinstance(c, ir.Node)]
    return seen


@check("P12", "effect analysis of every lowered public function: no control flow, shape, host conversion or host library call depends on a traced value; no derivative is cut between parameters and result; no selected branch hides a root or logarithm that turns negative exactly when it is not selected")
def p12(chk):
    b = bench()
    n0 = 0

    def one(e):
        lab, name, args, kw = e
        r, ev, fail = lower(b, name, args, kw)
        short = name.rsplit(".", 1)[1]
        if short in HOST_ONLY:
            chk.ok("host helper", lab, "%d events; runs outside traced code" % len(ev))
            return
        bad = False
        for kind, loc, det, dep in ev:
            if kind in TRACE:
                if dep and all(d.lstrip("@") == "f_ref" for d in dep):
                    chk.note("%s: %s on the reference frequency, which is static under jit" % (lab, kind))
                    continue
                chk.bad("traceable", "%s %s" % (lab, kind), "%s: %s (depends on %s)" % (TRACE[kind], det, ", ".join(sorted(dep)[:4]) or "its argument"), "%s:%s in %s" % loc if loc else None)
                bad = True
            elif kind in ("opaque-call", "opaque-hof"):
                chk.undecided("traceable", lab, "calls %s, which is not modelled" % det)
                bad = True
        if fail:
            if fail.startswith("raises"):
                chk.bad("traceable", lab, fail)
            elif not bad:
                chk.undecided("traceable", lab, fail)
            return
        if not bad:
            chk.ok("traceable", lab, "no tracing hazard")
        roots = nodes_of(b, r)
        vn = value_nodes(roots)
        cuts = [n for n in vn if n.op in CUT and ir.deps(n)]
        for n in cuts:
            chk.bad("derivative cut", "%s %s" % (lab, n.op.replace("fn:", "")), "the derivative through %s is dropped" % ir.show(n, 2), ir.locstr(n))
        if not cuts:
            chk.ok("derivative cut", lab, "%d value nodes" % len(vn))
        bad = 0
        for w, base, why in hidden_singular(b, roots):
            bad += 1
            chk.bad("guarded singularity", "%s %s" % (lab, ir.show(base, 2)), "%s: the gradient is NaN although the branch is not selected" % why, ir.locstr(w))
        if not bad:
            chk.ok("guarded singularity", lab, "%d selections" % sum(n.op == "where" for n in ir.topo(roots)))
        chk.analysed |= b.funcs()
    es = entries(b)
    chk.par(es, one)

    def grads(m):
        r = b.hphc(m)
        p = defaults(m)
        names = {"Mc": "M", "m1": "M", "m2": "delta", "eta": "delta", "s1x": "s1p", "s2x": "s2p", "s1y": "a1", "s2y": "a2"}
        for k in m.params:
            x = sym(names.get(k, k))
            root = r[0] if k != "incl" else r[1]
            d = ir.diff(root, x)
            con = "%s d/d%s" % (m.name, k)
            if d is ZERO or x.args[0] not in ir.deps(root):
                chk.bad("sensitive", con, "the strain does not depend differentiably on the parameter", ir.locstr(root))
            else:
                chk.ok("sensitive", con)
    chk.par(ALL, grads)
    chk.min_obl = 60


BOUNDARY = ("l1", "l2", "incl")


def hidden_singular(b, roots):
    """(selection, argument, reason) of roots and logarithms whose argument changes sign with the selection's condition"""
    nodes = ir.topo(roots)
    out, memo, zeros = [], {}, set()
    for w in nodes:
        if w.op != "where" or w in b.it.condnodes:
            continue
        c, x, y = w.args
        while c.op == "not":
            c, x, y = c.args[0], y, x
        if c.op not in ("lt", "le", "eq", "and", "or"):
            continue
        for p in BOUNDARY:                  # physical values of a parameter at the edge of its range
            if p not in ir.deps(c):
                continue
            at0 = {sym(p): ZERO}
            cz = subst(c, at0)
            if cz not in (ir.TRUE, ir.FALSE):
                continue
            for n in value_nodes([y if cz is ir.TRUE else x]):
                if (c, n, p) in zeros or n.op not in ("fn:log", "mon"):
                    continue
                zeros.add((c, n, p))
                for base in singular_args(n, "eq"):
                    if p in ir.deps(base) and subst(base, at0) is ZERO:
                        out.append((w, base, "the argument %s is zero at %s = 0, where the branch is not selected" % (ir.show(base, 2), p)))
        if c.op in ("and", "or"):
            continue
        u, v = c.args
        if all(d.lstrip("@") == "f_ref" for d in ir.deps(c)):
            continue                    # static under jit: the other branch is not evaluated
        for branch, hidden in ((x, ir.FALSE), (y, ir.TRUE)):
            for n in value_nodes([branch]):
                for base in singular_args(n, c.op):
                    if not (ir.deps(base) & (ir.deps(u) | ir.deps(v))):
                        continue
                    k = (base, c, hidden)
                    if k not in memo:
                        # its value while the branch is not selected
                        z = subst(base, {c: hidden})
                        memo[k] = bool(ir.deps(z)) and vanishes(z, u, v) and (c.op == "eq" or changes_sign(z, u, v))
                    if memo[k]:
                        out.append((w, base, "the argument %s is %s where the branch is not selected" % (
                            ir.show(base, 2), "zero" if c.op == "eq" else "negative")))
    return out


def singular_args(n, op):
    if n.op == "fn:log":
        return [n.args[0]]
    if n.op in ("fn:arcsin", "fn:arccos", "fn:arctanh"):
        return []
    out = []
    if n.op == "mon":
        for x, e in n.args:
            if e.denominator != 1 or (op == "eq" and e < 0):
                out.append(x)
    return out


def vanishes(base, u, v):
    """does the argument vanish where the two sides of the condition are equal?"""
    if u in (ZERO,) or ir.is_const(u):
        u, v = v, u
    if ir.is_const(u):
        return False
    if u not in set(ir.topo([base])):
        if v in set(ir.topo([base])) and not ir.is_const(v):
            u, v = v, u
        else:
            return False
    z = subst(base, {u: v})
    return avn.is_zero(z, BASE)


def changes_sign(base, u, v):
    """an odd number of sign changes at the boundary: the first derivative there is not zero"""
    if ir.is_const(u) or u not in set(ir.topo([base])):
        u, v = v, u
    t = sym("guard#")
    b2 = subst(base, {u: t})
    d = subst(ir.diff(b2, t), {t: v})
    return not avn.is_zero(d, BASE)


STATE = {
    "inplace": "modifies an array of the caller",
    "shared-mutation": "modifies state shared between calls",
    "global-mutation": "assigns a module variable",
    "nonlocal-mutation": "assigns a variable captured at import",
    "ext-mutation": "modifies an object of another library",
    "config-update": "changes the global JAX configuration",
    "io": "reads or writes a file", "io-read": "reads a file", "reflection": "uses run-time reflection", "identity": "depends on object identities",
    "narrow-dtype": "converts to less than double precision", "host-random": "draws from a hidden random state", "clock": "reads the clock or the environment",
}


@check("P20", "effect analysis of the import and of every lowered public function: no store into caller arrays, module state or foreign configuration, no hidden random state, clock, environment or file access, no narrowing conversion; lowering a function again after other calls yields the identical value graph")
def p20(chk):
    b = bench()
    for kind, loc, det, dep in b.module_events:
        if kind in ("config-update", "ext-mutation", "host-random", "clock"):
            chk.bad("import", kind, "%s: %s" % (STATE[kind], det), "%s:%s in %s" % loc if loc else None)
        if kind == "narrow-dtype":
            chk.bad("import", kind, "%s: %s" % (STATE[kind], det), "%s:%s in %s" % loc if loc else None)
    for path, ln, why in b.it.poisoned:
        chk.undecided("import", "%s:%s" % (path.split("/src/")[-1], ln), why)
    chk.ok("import", "%d modules" % len(b.it.modules), "%d events" % len(b.module_events))

    def one(e):
        lab, name, args, kw = e
        r, ev, fail = lower(b, name, args, kw)
        bad = False
        for kind, loc, det, dep in ev:
            if kind in STATE:
                bad = True
                chk.bad("pure", "%s %s" % (lab, kind), "%s: %s" % (STATE[kind], det), "%s:%s in %s" % loc if loc else None)
            elif kind == "opaque-call" and hidden(det):
                bad = True
                chk.bad("pure", "%s %s" % (lab, det), "depends on hidden state: %s" % det, "%s:%s in %s" % loc if loc else None)
            elif kind == "opaque-call":
                bad = True
                chk.undecided("pure", lab, "calls %s, which is not modelled" % det)
        if fail:
            if not bad:
                (chk.bad if fail.startswith("raises") else chk.undecided)("pure", lab, fail)
            return
        if not bad:
            chk.ok("pure", lab, "no effect on anything but the result")
        # history: other arguments, then the first ones again
        first = nodes_of(b, r)
        sub2 = {sym(x): sym(x + "2") for x in ("M", "D", "tc", "phic", "incl", "chi1", "chi2", "l1", "l2", "phiRef", "f_ref", "f", "t", "Q", "m1", "m2")}
        other = [[subst(y, sub2) for y in x] if isinstance(x, list) else subst(x, sub2) if isinstance(x, ir.Node) else x for x in args]
        other[0] = args[0] if len(args) > 1 else other[0]
        second, _, fail2 = lower(b, name, other, kw)
        again, _, fail = lower(b, name, args, kw)
        if name.startswith(GEN + "."):
            used, _gen[:] = _gen[:], []
            new, _, fail3 = lower(b, name, other, kw)
            _gen[:] = used
            chk.expect(not fail2 and not fail3 and nodes_of(b, new) == nodes_of(b, second), "history", lab + " on a used and a new object",
                       "same value graph")
        chk.expect(not fail and nodes_of(b, again) == first, "history", lab, "same value graph before and after a call with other arguments")
        chk.analysed |= b.funcs()
    chk.par(entries(b), one)
    chk.min_obl = 60


def hidden(name):
    return name.split(".")[0] in ("time", "datetime", "os", "random", "uuid", "secrets", "socket", "getpass", "platform") or name.startswith("numpy.random")
