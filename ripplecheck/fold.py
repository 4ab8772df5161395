"""Constant folding of value-graph nodes in exact rational / 50-digit decimal arithmetic.

Only nodes built from literals and named constants are folded; nothing of the package is run."""
from decimal import Decimal as D, getcontext
from fractions import Fraction as Fr
from . import ir
from .interp import REF

getcontext().prec = 60


class NotConstant(Exception):
    pass


def dec(fr):
    return D(fr.numerator) / D(fr.denominator)


def fold(n, memo=None):
    """Decimal value (or a pair for a complex one) of a constant node"""
    memo = {} if memo is None else memo
    for x in ir.topo([n]):
        if x not in memo:
            memo[x] = _fold1(x, memo)
    return memo[n]


def _fold1(x, m):
    op = x.op
    if op == "const":
        return dec(x.args[0])
    if op == "cst":
        if x.args[0] not in REF:
            raise NotConstant(x.args[0])
        return dec(REF[x.args[0]])
    if op == "inf":
        return D("Infinity")
    if op == "lin":
        return dec(x.args[0]) + sum((dec(v) * real(m[a]) for a, v in x.args[1]), D(0))
    if op == "mon":
        r = D(1)
        for b, e in x.args:
            v = real(m[b])
            if e.denominator == 1:
                r *= v ** int(e)
            elif v < 0 and e.denominator % 2:
                r *= (-1) ** e.numerator * (-v) ** dec(e)
            elif v < 0:
                raise NotConstant("fractional power of a negative number")
            else:
                r *= v ** dec(e)
        return r
    if op == "where":
        return m[x.args[1]] if m[x.args[0]] else m[x.args[2]]
    if op == "bool":
        return x.args[0]
    if op == "lt":
        return m[x.args[0]] < m[x.args[1]]
    if op == "le":
        return m[x.args[0]] <= m[x.args[1]]
    if op == "eq":
        return m[x.args[0]] == m[x.args[1]]
    if op == "not":
        return not m[x.args[0]]
    if op == "and":
        return m[x.args[0]] and m[x.args[1]]
    if op.startswith("fn:"):
        a = [m[c] for c in x.args if isinstance(c, ir.Node)]
        f = FN.get(op[3:])
        if f is not None and not any(isinstance(v, bool) for v in a):
            return f(*a)
    raise NotConstant(ir.show(x, 2))


def real(v):
    if isinstance(v, bool):
        return D(int(v))
    return v


def _sincos(x):
    pi = dec(REF["PI"])
    k = (x / (pi / 2)).to_integral_value()
    y = x - k * pi / 2
    s, c, t, i = D(0), D(0), D(1), 0
    while abs(t) > D(10) ** -45 or i < 4:
        if i % 2:
            s += t if i % 4 == 1 else -t
        else:
            c += t if i % 4 == 0 else -t
        i += 1
        t = t * y / i
    return [(s, c), (c, -s), (-s, -c), (-c, s)][int(k) % 4]


FN = {
    "exp": lambda x: x.exp(),
    "log": lambda x: x.ln(),
    "abs": lambda x: abs(x),
    "sin": lambda x: _sincos(x)[0],
    "cos": lambda x: _sincos(x)[1],
    "real": lambda x: x,
    "imag": lambda x: D(0),
    "conj": lambda x: x,
    "nan_to_num": lambda x: x,
    "stopgrad": lambda x: x,
    "power": lambda b, e: b ** e,
}


def close(v, ref, rel=D("1e-7")):
    if ref == 0:
        return abs(v) <= rel
    return abs(v - ref) <= rel * abs(ref)
