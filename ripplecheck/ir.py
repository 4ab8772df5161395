"""Value-graph IR: hash-consed pure expressions produced by lowering the Python AST.

Every node stands for one value of the analysed program (elementwise over a
grid where it depends on a grid symbol).  Sums are kept as rational linear
forms, products as monomials with rational exponents; everything else is a
function node.  Nothing in here evaluates floating point numbers.
"""
from fractions import Fraction as Fr

_table = {}
_count = [0]
CUR = [None]          # current source location (file, line, function), set by the interpreter


class Node:
    __slots__ = ("op", "args", "id", "loc", "_deps", "__weakref__")

    def __repr__(self):
        return show(self)


def mk(op, args):
    key = (op, args)
    n = _table.get(key)
    if n is None:
        n = Node()
        n.op = op
        n.args = args
        _count[0] += 1
        n.id = _count[0]
        n.loc = CUR[0]
        n._deps = None
        _table[key] = n
    return n


# ---- leaves -------------------------------------------------------------
def const(v):
    return mk("const", (v if isinstance(v, Fr) else Fr(v),))


ZERO = const(0)
ONE = const(1)
I = mk("I", ())
INF = mk("inf", ())
NAN = mk("nan", ())


def sym(name):
    return mk("sym", (name,))


def cst(name):
    """Named physical/mathematical constant."""
    return mk("cst", (name,))


def is_const(n):
    return n.op == "const"


def cval(n):
    return n.args[0]


# ---- linear forms -------------------------------------------------------
def _lin_terms(n):
    """(constant, {node: coef})"""
    if n.op == "const":
        return n.args[0], {}
    if n.op == "lin":
        return n.args[0], dict(n.args[1])
    return Fr(0), {n: Fr(1)}


def _mk_lin(c, terms):
    items = [(k, v) for k, v in terms.items() if v != 0]
    if not items:
        return const(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda kv: kv[0].id)
    return mk("lin", (c, tuple(items)))


def add(*ns):
    c = Fr(0)
    t = {}
    for n in ns:
        if n.op in ("inf", "nan"):
            return n
        k, d = _lin_terms(n)
        c += k
        for a, v in d.items():
            t[a] = t.get(a, 0) + v
    return _mk_lin(c, t)


def scale(n, k):
    if k == 1:
        return n
    if n.op in ("inf", "nan"):
        return fn("scaled", const(k), n) if k < 0 else n
    c, d = _lin_terms(n)
    return _mk_lin(c * k, {a: v * k for a, v in d.items()})


def neg(n):
    return scale(n, Fr(-1))


def sub(a, b):
    return add(a, neg(b))


# ---- monomials ----------------------------------------------------------
def _mon_parts(n):
    """(coef, {base: exponent})"""
    if n.op == "const":
        return n.args[0], {}
    if n.op == "mon":
        return Fr(1), dict(n.args)
    if n.op == "lin" and n.args[0] == 0 and len(n.args[1]) == 1:
        (a, v), = n.args[1]
        k, d = _mon_parts(a)
        return k * v, d
    return Fr(1), {n: Fr(1)}


def _mk_mon(c, d):
    d = {k: v for k, v in d.items() if v != 0}
    if I in d:
        e = d[I]
        if e.denominator == 1:
            e = int(e) % 4
            if e >= 2:
                c = -c
            if e % 2:
                d[I] = Fr(1)
            else:
                del d[I]
    if c == 0:
        return ZERO
    if not d:
        return const(c)
    if len(d) == 1:
        (b, e), = d.items()
        if e == 1:
            return scale(b, c)
    items = sorted(d.items(), key=lambda kv: kv[0].id)
    return scale(mk("mon", tuple(items)), c)


def mul(*ns):
    c = Fr(1)
    d = {}
    for n in ns:
        if n.op == "nan":
            return n
        k, m = _mon_parts(n)
        c *= k
        for b, e in m.items():
            d[b] = d.get(b, 0) + e
    if c == 0:
        return ZERO
    for b in d:
        if b.op == "inf":
            return fn("infprod", *[power(x, e) for x, e in d.items()])
    return _mk_mon(c, d)


def _iroot(n, k):
    if n < 0:
        return None
    r = round(n ** (1.0 / k)) if n < 10 ** 15 else int(round(n ** (1.0 / k)))
    for x in (r - 1, r, r + 1):
        if x >= 0 and x ** k == n:
            return x
    return None


def power(a, e):
    """a ** e for a rational exponent (real principal value on positive bases)."""
    if not isinstance(e, Fr):
        e = Fr(e)
    if e == 0:
        return ONE
    if e == 1:
        return a
    c, d = _mon_parts(a)
    if c == 0:
        return ZERO if e > 0 else INF
    if not d:
        if e.denominator == 1:
            return const(c ** int(e))
        k = e.denominator
        if c > 0:
            r1, r2 = _iroot(c.numerator, k), _iroot(c.denominator, k)
            if r1 is not None and r2 is not None:
                return const(Fr(r1, r2) ** e.numerator)
        return mk("mon", ((const(c), e),))
    if e.denominator == 1:
        return _mk_mon(c ** int(e), {b: x * e for b, x in d.items()})
    # fractional power: combine only where it is valid for every sign
    if c == 1 and len(d) == 1:
        (b, x), = d.items()
        if x.denominator != 1 or b.op == "cst" or (
            x.numerator % 2 and x.denominator == 1 and x != 1 and e.denominator % 2 == 0
        ):
            return _mk_mon(Fr(1), {b: x * e})
        if x == 1:
            return _mk_mon(Fr(1), {b: e})
    if all(b.op == "cst" or x.denominator != 1 for b, x in d.items()) and c > 0:
        out = power(const(c), e)
        return mul(out, _mk_mon(Fr(1), {b: x * e for b, x in d.items()}))
    return mk("mon", ((a, e),))


def div(a, b):
    if b is ZERO:
        return fn("divzero", a)
    if b is INF:
        return ZERO
    return mul(a, power(b, Fr(-1)))


# ---- functions ----------------------------------------------------------
def fn(name, *args):
    return mk("fn:" + name, args)


def isfn(n, name):
    return n.op == "fn:" + name


TRUE = mk("bool", (True,))
FALSE = mk("bool", (False,))


def seltree(n, k=0):
    """(condition, value if true, value if false) when n is a selection between constants only"""
    if k > 12:
        return None
    if n.op == "where":
        return n.args if constsel(n) else None
    if n.op in ("lin", "mon"):
        if not constsel(n):
            return None
        w = next((m for m in topo([n]) if m.op == "where" and m.args[1].op == "const" and m.args[2].op == "const"), None)
        if w is None:
            return None
        return w.args[0], subst(n, {w: w.args[1]}), subst(n, {w: w.args[2]})
    return None


_csel = {}


def constsel(n):
    """the value is one of finitely many constants"""
    r = _csel.get(n)
    if r is None:
        if n.op == "const":
            r = 1
        elif n.op == "where":
            x, y = constsel(n.args[1]), constsel(n.args[2])
            r = x + y if x and y else 0
        elif n.op == "lin":
            r = 1
            for a, _ in n.args[1]:
                r *= constsel(a)
                if not r:
                    break
        elif n.op == "mon":
            r = 1
            for a, e in n.args:
                r *= constsel(a) if e.denominator == 1 and e > 0 else 0
                if not r:
                    break
        else:
            r = 0
        if r > 64:
            r = 0
        _csel[n] = r
    return r


def boolwhere(c, x, y):
    return or_(and_(c, x), and_(not_(c), y))


def selmap(n, f, join):
    """f of every constant the selection n may take, joined by the same conditions"""
    if n.op == "const":
        return f(n)
    c, x, y = seltree(n)
    return join(c, selmap(x, f, join), selmap(y, f, join))


def _cmpsel(a, b, f):
    if (a.op != "const" or b.op != "const") and constsel(a) and constsel(b):
        d = sub(a, b)
        if d.op == "const" or seltree(d) is not None:
            return selmap(d, lambda k: TRUE if f(k.args[0]) else FALSE, boolwhere)
    return None


def lt(a, b):
    if a.op == "const" and b.op == "const":
        return TRUE if a.args[0] < b.args[0] else FALSE
    if b is INF and a.op == "const":
        return TRUE
    r = _cmpsel(a, b, lambda v: v < 0)
    return r if r is not None else mk("lt", (a, b))


def le(a, b):
    if a.op == "const" and b.op == "const":
        return TRUE if a.args[0] <= b.args[0] else FALSE
    r = _cmpsel(a, b, lambda v: v <= 0)
    return r if r is not None else mk("le", (a, b))


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "const" and b.op == "const":
        return TRUE if a.args[0] == b.args[0] else FALSE
    r = _cmpsel(a, b, lambda v: v == 0)
    return r if r is not None else mk("eq", (a, b) if a.id <= b.id else (b, a))


def not_(a):
    if a.op == "bool":
        return FALSE if a.args[0] else TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "lt":
        return le(a.args[1], a.args[0])
    if a.op == "le":
        return lt(a.args[1], a.args[0])
    return mk("not", (a,))


def and_(a, b):
    if a.op == "bool":
        return b if a.args[0] else FALSE
    if b.op == "bool":
        return a if b.args[0] else FALSE
    return mk("and", (a, b))


def or_(a, b):
    return not_(and_(not_(a), not_(b)))


BOOLOPS = ("lt", "le", "eq", "not", "and", "bool")


def is_bool(n):
    return n.op in BOOLOPS or n.op == "fn:boolext"


def where(c, a, b):
    if c.op == "bool":
        return a if c.args[0] else b
    if a is b:
        return a
    if c.op == "not":
        return where(c.args[0], b, a)
    if c.op == "le":      # canonical form uses lt only
        return where(lt(c.args[1], c.args[0]), b, a)
    return mk("where", (c, a, b))


def heaviside(x, v):
    return where(lt(x, ZERO), ZERO, where(lt(ZERO, x), ONE, v))


def sign(x):
    if x.op == "const":
        return const((x.args[0] > 0) - (x.args[0] < 0))
    return where(lt(x, ZERO), const(-1), where(lt(ZERO, x), ONE, ZERO))


def abs_(x):
    if x.op == "const":
        return const(abs(x.args[0]))
    if x.op == "cst":
        return x
    return fn("abs", x)


def maximum(a, b):
    return where(lt(a, b), b, a)


def minimum(a, b):
    return where(lt(b, a), b, a)


def exp(x):
    if x.op == "lin" and x.args[0] == 0 and len(x.args[1]) == 1 and isfn(x.args[1][0][0], "log"):
        # a power law written with logarithms
        (t, k), = x.args[1]
        if k.denominator != 1:
            return power(t.args[0], k)
    return ONE if x is ZERO else fn("exp", x)


def log(x):
    if x is ONE:
        return ZERO
    return fn("log", x)


def cos(x):
    return ONE if x is ZERO else fn("cos", x)


def sin(x):
    return ZERO if x is ZERO else fn("sin", x)


# ---- traversal ----------------------------------------------------------
def children(n):
    op = n.op
    if op == "lin":
        return [a for a, _ in n.args[1]]
    if op == "mon":
        return [a for a, _ in n.args]
    if op in ("const", "sym", "cst", "I", "inf", "nan", "bool"):
        return []
    return [a for a in n.args if isinstance(a, Node)]


def topo(roots):
    """Nodes reachable from roots, children first."""
    seen = set()
    out = []
    for r in roots:
        if r in seen:
            continue
        stack = [(r, iter(children(r)))]
        seen.add(r)
        while stack:
            n, it = stack[-1]
            for c in it:
                if c not in seen:
                    seen.add(c)
                    stack.append((c, iter(children(c))))
                    break
            else:
                stack.pop()
                out.append(n)
    return out


def deps(n):
    if n._deps is not None:
        return n._deps
    for m in topo([n]):
        if m._deps is None:
            if m.op == "sym":
                m._deps = frozenset((m.args[0],))
            else:
                cs = children(m)
                if not cs:
                    m._deps = frozenset()
                elif len(cs) == 1:
                    m._deps = cs[0]._deps
                else:
                    m._deps = frozenset().union(*[c._deps for c in cs])
    return n._deps


def rebuild(n, m):
    """Rebuild n with children replaced through dict m."""
    op = n.op
    if op == "lin":
        return add(const(n.args[0]), *[scale(m[a], v) for a, v in n.args[1]])
    if op == "mon":
        return mul(*[power(m[a], e) for a, e in n.args])
    if op == "where":
        return where(*[m[a] for a in n.args])
    if op == "lt":
        return lt(*[m[a] for a in n.args])
    if op == "le":
        return le(*[m[a] for a in n.args])
    if op == "eq":
        return eq(*[m[a] for a in n.args])
    if op == "not":
        return not_(m[n.args[0]])
    if op == "and":
        return and_(*[m[a] for a in n.args])
    if op == "fn:exp":
        return exp(m[n.args[0]])
    if op == "fn:log":
        return log(m[n.args[0]])
    if op == "fn:cos":
        return cos(m[n.args[0]])
    if op == "fn:sin":
        return sin(m[n.args[0]])
    if op == "fn:abs":
        return abs_(m[n.args[0]])
    return mk(op, tuple(m[a] if isinstance(a, Node) else a for a in n.args))


def subst_many(roots, mapping):
    """Simultaneous substitution {node: node}; returns the list of new roots."""
    keep = CUR[0]
    done = dict(mapping)
    for n in topo(roots):
        if n in done:
            continue
        cs = children(n)
        if all(done[c] is c for c in cs):
            done[n] = n
        else:
            CUR[0] = n.loc
            done[n] = rebuild(n, done)
    CUR[0] = keep
    return [done[r] for r in roots]


def subst(n, mapping):
    return subst_many([n], mapping)[0]


# ---- differentiation ----------------------------------------------------
def diff_many(roots, x, cache=None):
    """d(root)/dx for a sym node x, by forward accumulation over the graph."""
    keep = CUR[0]
    name = x.args[0]
    D = {} if cache is None else cache
    for n in topo(roots):
        if n in D:
            continue
        if name not in deps(n):
            D[n] = ZERO
            continue
        CUR[0] = n.loc
        D[n] = _diff1(n, x, D)
    CUR[0] = keep
    return [D[r] for r in roots]


def diff(n, x):
    return diff_many([n], x)[0]


def _diff1(n, x, D):
    op = n.op
    if n is x:
        return ONE
    if op == "lin":
        return add(*[scale(D[a], v) for a, v in n.args[1]])
    if op == "mon":
        parts = []
        for i, (b, e) in enumerate(n.args):
            if D[b] is ZERO:
                continue
            others = [power(bb, ee) for j, (bb, ee) in enumerate(n.args) if j != i]
            parts.append(mul(const(e), power(b, e - 1), D[b], *others))
        return add(*parts) if parts else ZERO
    if op == "where":
        return where(n.args[0], D[n.args[1]], D[n.args[2]])
    if op in BOOLOPS:
        return ZERO
    a = n.args[0] if n.args and isinstance(n.args[0], Node) else None
    if op == "fn:exp":
        return mul(n, D[a])
    if op == "fn:log":
        return div(D[a], a)
    if op == "fn:sin":
        return mul(cos(a), D[a])
    if op == "fn:cos":
        return neg(mul(sin(a), D[a]))
    if op == "fn:arctan":
        return div(D[a], add(ONE, mul(a, a)))
    if op == "fn:arctan2":
        y, z = n.args
        return div(sub(mul(D[y], z), mul(y, D[z])), add(mul(y, y), mul(z, z)))
    if op == "fn:arccos":
        return neg(div(D[a], power(sub(ONE, mul(a, a)), Fr(1, 2))))
    if op == "fn:arcsin":
        return div(D[a], power(sub(ONE, mul(a, a)), Fr(1, 2)))
    if op == "fn:abs":
        return mul(sign(a), D[a])
    if op == "fn:stopgrad":
        return ZERO
    if op == "fn:nan_to_num":
        return D[a]
    if op == "fn:power":
        b, e = n.args
        return add(mul(n, D[e], log(b)), mul(e, D[b], fn("power", b, sub(e, ONE))))
    if op in ("fn:conj", "fn:real", "fn:imag"):
        return mk(op, (D[a],))
    if op == "fn:solve":
        # x = A^-1 b  =>  x' = A^-1 (b' - A' x)
        i, nn = n.args[0], n.args[1]
        ent = n.args[2:]
        A = ent[: nn * nn]
        b = ent[nn * nn:]
        xs = [mk("fn:solve", (j, nn) + tuple(ent)) for j in range(nn)]
        rhs = []
        for r in range(nn):
            rhs.append(sub(D[b[r]], add(*[mul(D[A[r * nn + k]], xs[k]) for k in range(nn)])))
        return mk("fn:solve", (i, nn) + tuple(A) + tuple(rhs))
    if op in ("fn:argmin", "fn:argmax", "fn:floor", "fn:ceil", "fn:round", "fn:toint"):
        return ZERO
    if op == "fn:interp":
        return mul(mk("fn:interp'", n.args), D[a])
    if op == "fn:gather":
        return D[a] if D[a] is ZERO else mk("fn:gather", (D[a],) + n.args[1:])
    # unknown function: opaque partial derivatives
    parts = []
    for i, c in enumerate(n.args):
        if isinstance(c, Node) and D.get(c, ZERO) is not ZERO:
            parts.append(mul(mk("fn:d%d:%s" % (i, op), n.args), D[c]))
    return add(*parts) if parts else ZERO


# ---- printing -----------------------------------------------------------
def show(n, depth=4):
    if depth == 0:
        return "…"
    op = n.op
    if op == "const":
        v = n.args[0]
        return str(v) if v.denominator < 10 ** 6 else repr(float(v))
    if op in ("sym", "cst"):
        return n.args[0]
    if op == "I":
        return "1j"
    if op == "lin":
        s = [] if n.args[0] == 0 else [show(const(n.args[0]))]
        s += ["%s%s" % ("" if v == 1 else show(const(v)) + "*", show(a, depth - 1)) for a, v in n.args[1][:6]]
        if len(n.args[1]) > 6:
            s.append("…")
        return "(" + " + ".join(s) + ")"
    if op == "mon":
        return "*".join(show(a, depth - 1) + ("" if e == 1 else "^(%s)" % e) for a, e in n.args)
    nm = op[3:] if op.startswith("fn:") else op
    return nm + "(" + ", ".join(show(a, depth - 1) if isinstance(a, Node) else str(a) for a in n.args[:6]) + ")"


def locstr(n):
    if n.loc is None:
        return "?"
    return "%s:%s (%s)" % n.loc


def rewrite(roots, f):
    """bottom-up rewriting: f(old node, rebuilt node) -> node"""
    keep = CUR[0]
    done = {}
    for n in topo(roots):
        cs = children(n)
        if all(done[c] is c for c in cs):
            r = n
        else:
            CUR[0] = n.loc
            r = rebuild(n, done)
        done[n] = f(n, r)
    CUR[0] = keep
    return [done[r] for r in roots]


def _split(n):
    """(condition, value if true, value if false) of the first selection inside a linear or monomial term"""
    if n.op == "where":
        return n.args
    if n.op == "lin":
        for a, v in n.args[1]:
            r = _split(a)
            if r:
                rest = sub(n, scale(a, v))
                return r[0], add(rest, scale(r[1], v)), add(rest, scale(r[2], v))
    if n.op == "mon":
        for a, e in n.args:
            r = _split(a)
            if r:
                o = [power(b, x) for b, x in n.args if b is not a]
                return r[0], mul(power(r[1], e), *o), mul(power(r[2], e), *o)
    return None


def lift(roots, var):
    """comparisons of selected values that depend on `var` become combinations of comparisons of the branches"""
    def f(old, n):
        if n.op not in ("lt", "le") or var not in deps(n) or n.args[0] is INF or n.args[1] is INF:
            return n
        u = sub(n.args[1], n.args[0])
        d = diff(u, sym(var))
        if var not in deps(d):
            return n
        r = _split(u)
        if r is None or var not in deps(r[0]):
            return n
        mkc = lt if n.op == "lt" else le
        return or_(and_(r[0], f(None, mkc(ZERO, r[1]))), and_(not_(r[0]), f(None, mkc(ZERO, r[2]))))
    return rewrite(roots, f)
