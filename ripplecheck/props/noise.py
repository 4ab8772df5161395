"""Detector noise curves."""
import ast
import itertools
import math
import os
import re
import sys
from fractions import Fraction as Fr
from .. import ir, interp
from ..ir import sym, mul, add, power, const, subst_many, subst, div, sub
from ..interp import N, StaticRaise, Unsupported
from ..bench import bench, BASE, F
from ..core import AnalysisBroken
from . import check

MOD = "ripplegw.noise"
# curve -> (data file, table holds amplitude spectral densities)
CURVES = {"aLIGO": ("aLIGO.dat", True), "ce": ("ce.dat", True), "et": ("et.dat", True), "O2": ("O2_ASD.dat", True),
          "O3a": ("O3a_Livingston_ASD.dat", True), "aLIGOZeroDetHighPower": ("aLIGOZeroDetHighPower.dat", False)}
TINY32 = Fr("1.17549435e-38")


def table(name):
    p = os.path.join(interp.SRC, "ripplegw", "noise_resources", name)
    rows = []
    try:
        with open(p) as fh:
            for l in fh:
                l = l.split("#")[0].split()
                if l:
                    rows.append([float(x) for x in l])
    except (OSError, ValueError) as e:
        raise AnalysisBroken("noise table %s cannot be read: %r" % (name, e))
    return rows


def files(n):
    """data files that a value is loaded from"""
    return sorted({m.op.split("'")[1] for m in ir.topo([n]) if m.op.startswith("fn:py:'") and ".dat" in m.op})


def column(n):
    """index of the table column a node is, or None"""
    if ir.isfn(n, "item") and ir.isfn(n.args[0], "loadtxt") and isinstance(n.args[1], ir.Node) and n.args[1].op == "const":
        return int(n.args[1].args[0])
    return None


class NoFold(Exception):
    pass


def num_(x):
    return float(x.numerator) / float(x.denominator) if x.denominator < 10 ** 300 else float(x)


def bro(f, *a):
    """elementwise with broadcasting of scalars"""
    ls = [x for x in a if isinstance(x, list)]
    if not ls:
        return f(*a)
    n = {len(x) for x in ls if len(x) != 1} or {1}
    if len(n) != 1:
        raise NoFold("lengths %s" % sorted(n))
    n = n.pop()
    return [bro(f, *[(x[i] if len(x) > 1 else x[0]) if isinstance(x, list) else x for x in a]) for i in range(n)]


def quantile(v, q):
    v = sorted(v)
    t = q * (len(v) - 1)
    i = min(int(t), len(v) - 2) if len(v) > 1 else 0
    return v[i] + (t - i) * (v[min(i + 1, len(v) - 1)] - v[i])


def _pow(x, e):
    if x == 0 and e < 0:
        return float("inf")
    if x < 0 and e.denominator != 1:
        return float("nan")
    return x ** (int(e) if e.denominator == 1 else float(e))


def _log(x):
    return math.log(x) if 0 < x < math.inf else math.inf if x == math.inf else -math.inf if x == 0 else math.nan


def _exp(x):
    return math.inf if x > 709 else math.exp(x)


def _n2n(x, *a):
    return 0.0 if x != x else math.copysign(sys.float_info.max, x) if abs(x) == math.inf else x


REDUCE = {"sum": math.fsum, "min": min, "max": max, "mean": lambda v: math.fsum(v) / len(v), "prod": math.prod, "len": lambda v: float(len(v)),
          "median": lambda v: quantile(v, 0.5), "amin": min, "amax": max, "average": lambda v: math.fsum(v) / len(v),
          "percentile": lambda v, q: quantile(v, q / 100), "quantile": quantile, "argmin": lambda v: float(v.index(min(v))), "argmax": lambda v: float(v.index(max(v))),
          "std": lambda v: (math.fsum(x * x for x in v) / len(v) - (math.fsum(v) / len(v)) ** 2) ** 0.5}
REDUCE["nanmedian"] = REDUCE["median"]
MAPS = {"abs": abs, "exp": _exp, "log": _log, "real": lambda x: x, "conj": lambda x: x, "stopgrad": lambda x: x, "nan_to_num": _n2n,
        "floor": lambda x: float(math.floor(x)), "ceil": lambda x: float(math.ceil(x)), "trunc": lambda x: float(int(x)), "toint": lambda x: float(int(x)),
        "rint": lambda x: float(round(x)), "round": lambda x, n=0.0: round(x, int(n)), "sign": lambda x: float((x > 0) - (x < 0)),
        "isfinite": lambda x: abs(x) < math.inf, "isinf": lambda x: abs(x) == math.inf, "isnan": lambda x: x != x}
LISTS = {"sort": sorted, "flip": lambda v: v[::-1], "cumsum": lambda v: list(itertools.accumulate(v)), "diff": lambda v: [y - x for x, y in zip(v, v[1:])],
         "unique": lambda v: sorted(set(v)), "copy": list}


def py(n):
    """the Python object a node of a non-numeric argument shows, or None"""
    if n.op.startswith("fn:py:"):
        t = n.op[6:]
        try:
            return ast.literal_eval(t)
        except (ValueError, SyntaxError):
            m = re.fullmatch(r"slice\((.*), (.*), (.*)\)", t)
            if m:
                try:
                    return slice(*[ast.literal_eval(x) for x in m.groups()])
                except (ValueError, SyntaxError):
                    pass
    return None


def read(n):
    """columns of the table a loadtxt node reads, under the options it is read with"""
    f = files(n)
    if len(f) != 1:
        raise NoFold("table " + ir.show(n, 2))
    opt = {}
    for a in n.args[1:]:
        k, _, v = a.op[6:].partition("=")
        try:
            opt[k] = ast.literal_eval(v)
        except (ValueError, SyntaxError):
            raise NoFold("option %s of the read" % k)
    com = opt.pop("comments", "#")
    com = [com] if isinstance(com, str) else list(com or [])
    skip, cols, sep, rows_max = opt.pop("skiprows", 0), opt.pop("usecols", None), opt.pop("delimiter", None), opt.pop("max_rows", None)
    skip += opt.pop("skip_header", 0)
    if opt:
        raise NoFold("options %s of the read" % sorted(opt))
    with open(os.path.join(interp.SRC, "ripplegw", "noise_resources", os.path.basename(f[0]))) as fh:
        lines = fh.read().splitlines()[skip:]
    rows = []
    for l in lines:
        for c in com:
            l = l.split(c)[0]
        if l.strip():
            rows.append([float(x) for x in l.split(sep)])
    rows = rows[:rows_max]
    cols = [cols] if isinstance(cols, int) else cols
    return [list(c) for c in zip(*([r[i] for i in cols] if cols is not None else r for r in rows))]


def tabulate(n, memo=None):
    """a node made of tabulated columns and constants, folded: a number or a list"""
    memo = {} if memo is None else memo
    for x in ir.topo([n]):
        if x not in memo:
            memo[x] = _tab(x, memo)
    if isinstance(memo[n], NoFold):
        raise memo[n]
    return memo[n]


def _tab(x, m):
    try:
        return _tab1(x, lambda c: _get(m, c))
    except NoFold as e:
        return e
    except (OverflowError, ValueError, IndexError, TypeError, ZeroDivisionError) as e:
        return NoFold("%s: %r" % (ir.show(x, 2), e))


def _get(m, c):
    v = m[c]
    if isinstance(v, NoFold):
        raise v
    return v


def _tab1(x, m):
    op = x.op
    if op == "const":
        return num_(x.args[0])
    if op == "cst":
        return num_(interp.REF[x.args[0]]) if x.args[0] in interp.REF else _no(x)
    if x is ir.INF:
        return math.inf
    if op == "bool":
        return x.args[0]
    if op == "lin":
        r = num_(x.args[0])
        for a, k in x.args[1]:
            r = bro(lambda u, v, k=num_(k): u + (k * v if k != 1 else v), r, m(a))
        return r
    if op == "mon":
        r = 1.0
        for a, e in x.args:
            r = bro(lambda u, v, e=e: u * _pow(v, e), r, m(a))
        return r
    if op in ("lt", "le", "eq"):
        f = {"lt": lambda u, v: u < v, "le": lambda u, v: u <= v, "eq": lambda u, v: u == v}[op]
        return bro(f, m(x.args[0]), m(x.args[1]))
    if op == "not":
        return bro(lambda u: not u, m(x.args[0]))
    if op == "and":
        return bro(lambda u, v: u and v, m(x.args[0]), m(x.args[1]))
    if op == "or":
        return bro(lambda u, v: u or v, m(x.args[0]), m(x.args[1]))
    if op == "where":
        return bro(lambda c, u, v: u if c else v, *[m(a) for a in x.args])
    if op == "fn:loadtxt":
        return read(x)
    if op == "fn:item" or op == "fn:gather":
        k = py(x.args[1])
        a = m(x.args[0])
        if isinstance(k, slice):
            return a[k]
        k = m(x.args[1])
        if isinstance(k, list):
            return [u for u, t in zip(a, k) if t] if all(isinstance(t, bool) for t in k) else [a[int(t)] for t in k]
        return a[int(k)]
    if op == "fn:vec":
        return [m(a) for a in x.args]
    if op == "fn:concat":
        return [v for a in x.args for v in (m(a) if isinstance(m(a), list) else [m(a)])]
    nm = op[3:] if op.startswith("fn:") else ""
    nm = nm.rsplit(".", 1)[1] if nm.startswith("ext:") and "." in nm else nm
    if nm in REDUCE:
        a = [m(c) for c in x.args]
        return REDUCE[nm](*a) if isinstance(a[0], list) else _no(x)
    if nm in MAPS:
        return bro(MAPS[nm], *[m(c) for c in x.args])
    if nm in LISTS and len(x.args) == 1:
        return LISTS[nm](m(x.args[0]))
    return _no(x)


def _no(x):
    raise NoFold(ir.show(x, 2))


def near(a, b):
    return a == b or abs(a - b) <= 1e-9 * abs(b)


def peel(n):
    """strip selections that give inf outside the tabulated range"""
    while n.op == "where" and any(a is ir.INF for a in n.args[1:]) and not any(column(m) == 1 for m in ir.topo([n.args[0]])):
        n = n.args[2] if n.args[1] is ir.INF else n.args[1]
    return n


@check("P17", "pattern and value-number rules on the lowered noise curves: interpolation abscissae, ordinates and end values, ends of the published range, the analytic curve against its closed form; unit and magnitude analysis of the tabulated data the source loads")
def p17(chk):
    b = bench()
    mod = b.it.module(MOD)
    for name, (dat, asd) in CURVES.items():
        try:
            f = mod.env.vars.get("Sn_" + name)
        except Unsupported as e:
            chk.undecided("curve", name, str(e))
            continue
        if f is None:
            chk.bad("curve", name, "Sn_%s is gone" % name, "src/ripplegw/noise.py")
            continue
        try:
            r = N(b.it.call(f, [F], {}))
        except (StaticRaise, Unsupported) as e:
            chk.undecided("curve", name, "%s: %s" % (type(e).__name__, e))
            continue
        loc = "src/ripplegw/noise.py"
        got = [x for x in files(r)]
        if not any(dat in x for x in got) or len(got) != 1:
            chk.bad("data file", name, "interpolates %s instead of %s" % (got, dat), loc)
            continue
        chk.ok("data file", name, dat)
        n = peel(r)
        while n.op in ("fn:nan_to_num", "fn:real", "fn:stopgrad"):
            n = n.args[0]
        if not any(ir.isfn(q, "interp") or ir.isfn(q, "spline") for q in ir.topo([n])):
            chk.undecided("curve", name, "an interpolation of its own: %s" % ir.show(n, 2))
            continue
        if not ir.isfn(n, "interp"):
            chk.bad("curve", name, "is not the linear interpolation of its table: %s" % ir.show(n, 2), ir.locstr(n) or loc)
            continue
        x, xp, fp = n.args[:3]
        chk.expect(x is F, "argument", name, "interpolated at %s" % ir.show(x, 3), ir.locstr(n) or loc)
        rows = table(dat)
        folded = {}
        want = [q[0] for q in rows], [(q[1] ** 2 if asd else q[1]) or math.inf for q in rows]
        for rule, node, exp in (("abscissae", xp, want[0]), ("ordinates", fp, want[1])):
            try:
                v = tabulate(node, folded)
            except NoFold as e:
                chk.undecided(rule, name, "not a function of the table alone: %s" % e)
                continue
            if not isinstance(v, list) or len(v) != len(exp):
                chk.bad(rule, name, "%s values for %d rows of the table" % (len(v) if isinstance(v, list) else "scalar", len(exp)), ir.locstr(node) or loc)
                continue
            k = [i for i in range(len(v)) if not near(v[i], exp[i])]
            chk.expect(not k, rule, name, "row %d gives %.9g, expected %.9g" % (k[0], v[k[0]], exp[k[0]]) if k else "%d rows" % len(v), ir.locstr(node) or loc)
        ends = n.args[3:]
        full = len(ends) == 2 and all(e is ir.INF for e in ends)
        band(chk, name, r, n, full, ends, (rows_ends(dat)), loc)
        try:
            rg = mod.env.vars.get("f_range_" + name)
        except Unsupported as e:
            chk.undecided("range", name, str(e))
            continue
        if rg is None:
            chk.bad("range", name, "f_range_%s is gone" % name, loc)
        else:
            lo, hi = b.fields(rg, 2, "f_range_" + name)
            for lab, e, i in (("lower end", lo, 0), ("upper end", hi, -1)):
                try:
                    v = tabulate(e, folded)
                except NoFold as x:
                    chk.undecided("range", "%s %s" % (name, lab), str(x))
                    continue
                chk.expect(v == rows[i][0], "range", "%s %s" % (name, lab), "%s, the table ends at %s" % (v, rows[i][0]), ir.locstr(e) or loc)
        chk.expect(all(len(q) == 2 for q in rows), "table", name + " columns", "%d rows" % len(rows), dat)
        chk.expect(all(p[0] < q[0] for p, q in zip(rows, rows[1:])) and rows[0][0] > 0, "table", name + " frequencies increase", "", dat)
        vals = [q[1] for q in rows]
        chk.expect(all(v == v and v > 0 for v in vals), "table", name + " noise is positive", "", dat)
        v = min(vals)
        p = Fr(v) ** 2 if asd else Fr(v)
        chk.expect(Fr(1, 10 ** 52) < p < Fr(1, 10 ** 42), "table", name + " magnitude of a power spectral density", "minimum %.3g" % float(p), dat)
        float32(chk, b, name, p)
    ligoi(chk, b, mod)
    chk.analysed |= b.funcs()
    chk.min_obl = 50


def rows_ends(dat):
    r = table(dat)
    return r[0][0], r[-1][0]


def band(chk, name, r, n, full, ends, lohi, loc):
    """infinite beyond the ends of the table, interpolated between and at them"""
    rule = "outside the band"
    inf_ends = ["left and right values are %s" % [ir.show(e, 2) for e in ends]]
    try:
        for c in ir.topo([r]):
            if c.op in ("lt", "le", "eq") and "f" in ir.deps(c) and c not in ir.topo([n]):
                u = sub(c.args[1], c.args[0])
                du = ir.diff(u, F)
                if "f" in ir.deps(du):
                    raise NoFold("comparison " + ir.show(c, 2))
                bp = tabulate(ir.neg(div(subst(u, {F: ir.ZERO}), du)))
                if bp not in lohi:
                    chk.bad(rule, name, "the band is cut at %.9g Hz, the table ends at %s" % (bp, lohi), ir.locstr(c) or loc)
                    return
        lo, hi = lohi
        for x, inside in ((lo / 2, 0), (lo, 1), ((lo + hi) / 2, 1), (hi, 1), (2 * hi, 0)):
            q = r
            while q is not n:
                if q.op == "where":
                    q = q.args[1] if tabulate(subst(q.args[0], {F: const(Fr(x))})) else q.args[2]
                elif q is ir.INF:
                    break
                elif len(q.args) == 1:
                    q = q.args[0]
                else:
                    raise NoFold(ir.show(q, 2))
            if inside and q is not n or not inside and not (q is ir.INF or full):
                chk.bad(rule, name, "%s at %.9g Hz; %s" % ("infinite" if inside else "finite", x, inf_ends[0]), ir.locstr(r) or loc)
                return
    except NoFold as e:
        chk.undecided(rule, name, str(e))
        return
    chk.ok(rule, name, inf_ends[0])


def float32(chk, b, name, pmin):
    """the curve's values must be representable in the precision they are stored in"""
    x64 = any(k == "config-update" and "x64" in d for k, _, d, *_ in b.module_events)
    if x64 or pmin >= TINY32:
        chk.ok("representable", name, "minimum %.3g" % float(pmin))
    else:
        chk.bad("representable", name, "minimum %.3g is below the smallest normal float32" % float(pmin), "src/ripplegw/noise.py")


def ligoi(chk, b, mod):
    try:
        f = mod.env.vars.get("Sn_LIGOI")
        rg = mod.env.vars.get("f_range_LIGOI")
    except Unsupported as e:
        chk.undecided("curve", "LIGOI", str(e))
        return
    if f is None or rg is None:
        chk.bad("curve", "LIGOI", "Sn_LIGOI or f_range_LIGOI is gone", "src/ripplegw/noise.py")
        return
    try:
        r = N(b.it.call(f, [F], {}))
    except (StaticRaise, Unsupported) as e:
        chk.undecided("curve", "LIGOI", "%s: %s" % (type(e).__name__, e))
        return
    chk.scope = [r]
    d = sym("df40")
    env = BASE.plus("df40")
    below = subst(r, {F: sub(const(40), d)})
    chk.same("cut", "LIGOI below 40 Hz", [("infinite", below, ir.INF)], env)
    x = div(F, const(150))
    c = lambda t: const(Fr(t))
    s = mul(c("9e-46"), add(power(mul(c("4.49"), x), -56), mul(c("0.16"), power(x, Fr("-4.52"))), c("0.52"), mul(c("0.32"), x, x)))
    up = {F: add(const(40), d)}
    chk.same("curve", "LIGOI", [("closed form above 40 Hz", subst(r, up), subst(s, up))], env)
    lo, hi = b.fields(rg, 2, "f_range_LIGOI")
    chk.expect(lo is const(40) and hi is const(10000), "range", "LIGOI", "%s %s" % (ir.show(lo), ir.show(hi)), "src/ripplegw/noise.py")
    # its minimum, near 150 Hz, is about 9e-46
    float32(chk, b, "LIGOI", Fr("9e-46"))
