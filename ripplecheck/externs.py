"""Transfer functions for external callables (numpy, jax, functools, builtins).

Each entry maps abstract arguments to an abstract value of the value graph.
A callable that is not modelled yields an opaque node that depends on all its
arguments, which keeps the analysis total.
"""
from fractions import Fraction as Fr
from . import ir
from .ir import Node, const, fn, mk
from . import interp as I_
from .interp import (Vec, Ext, Opaque, Closure, Builtin, ClassVal, Instance, Module, N, B, num, bc, has_grid,
                     to_whole, static_int, Unsupported, StaticRaise, vecnode, hk)

T = {}


def reg(*names):
    def d(f):
        for n in names:
            T[n] = f
        return f
    return d


def elementwise(f):
    def g(it, a, kw):
        a = list(a)
        a = [Vec(x) if isinstance(x, (list, tuple)) else x for x in a]
        return bc(lambda *xs: f(*[num(x) for x in xs]), *a)
    return g


def traced(x):
    if isinstance(x, Node):
        return bool(ir.deps(x)) and not all(d.startswith("$") for d in ir.deps(x))
    if isinstance(x, (Vec, list, tuple)):
        return any(traced(i) for i in (x.items if isinstance(x, Vec) else x))
    return False


def _half(x):
    return ir.power(x, Fr(1, 2))


def _cbrt(x):
    # real cube root, odd
    return ir.power(x, Fr(1, 3))


def _tan(x):
    return ir.div(ir.sin(x), ir.cos(x))


def _arctan2(y, x):
    return fn("arctan2", y, x)


def _arctan(x):
    return fn("arctan", x)


def _cosh(x):
    return ir.scale(ir.add(ir.exp(x), ir.exp(ir.neg(x))), Fr(1, 2))


def _sinh(x):
    return ir.scale(ir.sub(ir.exp(x), ir.exp(ir.neg(x))), Fr(1, 2))


def _tanh(x):
    e = ir.exp(ir.scale(x, Fr(2)))
    return ir.div(ir.sub(e, ir.ONE), ir.add(e, ir.ONE))


def _abs(x):
    if I_._has_I(x):
        r = I_._reim(x)
        if r is not None and not (x.op == "sym"):
            # |a e^{i p}| : modulus of each monomial factor where visible
            c, parts = ir._mon_parts(x)
            if len(parts) > 1 or abs(c) != 1:
                out = const(abs(c))
                for b, e in parts.items():
                    out = ir.mul(out, ir.power(_abs(b), e))
                return out
            if x.op == "fn:exp":
                return ir.exp(I_._reim(x.args[0])[0]) if I_._reim(x.args[0]) else ir.abs_(x)
            if x is ir.I:
                return ir.ONE
        return ir.abs_(x)
    return ir.abs_(x)


def _expit(x):
    return ir.power(ir.add(ir.ONE, ir.exp(ir.neg(x))), -1)


def _deg(x):
    return ir.div(ir.scale(x, Fr(180)), I_.PI)


ELEM = {
    "add": ir.add, "subtract": ir.sub, "multiply": ir.mul, "divide": ir.div, "true_divide": ir.div,
    "negative": ir.neg, "positive": lambda x: x, "reciprocal": lambda x: ir.power(x, -1),
    "square": lambda x: ir.power(x, 2), "sqrt": _half, "cbrt": _cbrt,
    "exp": ir.exp, "expm1": lambda x: ir.sub(ir.exp(x), ir.ONE), "log": ir.log,
    "exp2": lambda x: fn("power", const(2), x),
    "log1p": lambda x: ir.log(ir.add(ir.ONE, x)),
    "log10": lambda x: ir.div(ir.log(x), ir.log(const(10))), "log2": lambda x: ir.div(ir.log(x), ir.log(const(2))),
    "sin": ir.sin, "cos": ir.cos, "tan": _tan, "arctan": _arctan, "arctan2": _arctan2, "atan": _arctan,
    "atan2": _arctan2, "acos": lambda x: fn("arccos", x), "asin": lambda x: fn("arcsin", x),
    "arccos": lambda x: fn("arccos", x), "arcsin": lambda x: fn("arcsin", x),
    "sinh": _sinh, "cosh": _cosh, "tanh": _tanh,
    "abs": _abs, "absolute": _abs, "fabs": _abs, "sign": ir.sign,
    "hypot": lambda x, y: _half(ir.add(ir.power(x, 2), ir.power(y, 2))),
    "maximum": ir.maximum, "minimum": ir.minimum, "fmax": ir.maximum, "fmin": ir.minimum,
    "floor": lambda x: fn("floor", x), "ceil": lambda x: fn("ceil", x), "rint": lambda x: fn("round", x),
    "deg2rad": lambda x: ir.div(ir.mul(x, I_.PI), const(180)), "radians": lambda x: ir.div(ir.mul(x, I_.PI), const(180)),
    "rad2deg": _deg, "degrees": _deg,
    "heaviside": ir.heaviside,
    "copysign": lambda x, y: ir.where(ir.lt(y, ir.ZERO), ir.neg(ir.abs_(x)), ir.abs_(x)),
    "conj": I_.conj, "conjugate": I_.conj, "real": I_.realpart, "imag": I_.imagpart,
    "angle": lambda x: _arctan2(I_.imagpart(x), I_.realpart(x)),
    "mod": lambda x, y: fn("mod", x, y), "remainder": lambda x, y: fn("mod", x, y), "fmod": lambda x, y: fn("fmod", x, y),
    "nan_to_num": lambda x: x,
    "isnan": lambda x: fn("boolext", fn("isnan", x)), "isfinite": lambda x: fn("boolext", fn("isfinite", x)),
    "isinf": lambda x: fn("boolext", fn("isinf", x)),
    "floor_divide": lambda x, y: fn("floor", ir.div(x, y)),
    "sinc": lambda x: fn("sinc", x), "float64": lambda x: x, "float32": lambda x: x, "complex128": lambda x: x,
    "complex64": lambda x: x, "int32": lambda x: _toint(x), "int64": lambda x: _toint(x), "uint32": lambda x: _toint(x),
    "int16": lambda x: _toint(x), "int8": lambda x: _toint(x), "trunc": lambda x: _toint(x), "fix": lambda x: _toint(x),
    "sigmoid": lambda x: _expit(x), "expit": lambda x: _expit(x), "logistic": lambda x: _expit(x),
    "softplus": lambda x: ir.log(ir.add(ir.ONE, ir.exp(x))), "relu": lambda x: ir.maximum(x, ir.ZERO),
    "logaddexp": lambda x, y: ir.log(ir.add(ir.exp(x), ir.exp(y))), "silu": lambda x: ir.mul(x, _expit(x)),
    "log_sigmoid": lambda x: ir.log(_expit(x)), "log_expit": lambda x: ir.log(_expit(x)),
    "logit": lambda x: ir.log(ir.div(x, ir.sub(ir.ONE, x))), "xlogy": lambda x, y: ir.mul(x, ir.log(y)),
    "arcsinh": lambda x: ir.log(ir.add(x, _half(ir.add(ir.power(x, 2), ir.ONE)))),
    "arctanh": lambda x: ir.scale(ir.log(ir.div(ir.add(ir.ONE, x), ir.sub(ir.ONE, x))), Fr(1, 2)),
    "bool_": lambda x: B(x),
    "rsqrt": lambda x: ir.power(x, Fr(-1, 2)),
    "integer_pow": None,
    "cosdg": None, "erf": lambda x: fn("erf", x),
}
CMP = {"less": "Lt", "less_equal": "LtE", "greater": "Gt", "greater_equal": "GtE", "equal": "Eq", "not_equal": "NotEq",
       "lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE", "eq": "Eq", "ne": "NotEq"}
ARRAYNS = ("numpy", "jnumpy", "math", "cmath", "jax.lax", "jax.nn", "scipy.special", "operator", "jax.numpy")
OPER = {"sub": "Sub", "mul": "Mult", "truediv": "Div", "div": "Div", "pow": "Pow", "matmul": "MatMult", "neg": None,
        "floordiv": "FloorDiv"}
CONSTS = {"pi": I_.PI, "e": None, "euler_gamma": I_.EG_, "inf": ir.INF, "Inf": ir.INF, "infty": ir.INF, "nan": ir.NAN, "NaN": ir.NAN,
          "newaxis": None, "tau": ir.scale(I_.PI, Fr(2))}
PURE_IGNORED = ("print", "warnings.warn", "warnings.filterwarnings", "warnings.simplefilter", "logging", "jax.debug")


def constval(name):
    ns, _, a = name.rpartition(".")
    if ns in ("numpy", "jnumpy", "math", "cmath", "scipy.constants") and a in CONSTS and (a != "e"):
        return True, CONSTS[a]
    if ns in ("numpy", "jnumpy", "math") and a == "e":
        return True, ir.exp(ir.ONE)
    return False, None


def split(name):
    for ns in ARRAYNS:
        if name.startswith(ns + "."):
            return ns, name[len(ns) + 1:]
    return "", name


HOSTMAKE = ("array", "asarray", "zeros", "ones", "linspace", "arange", "stack", "concatenate", "full", "logspace")
NARROW = ("float32", "float16", "bfloat16", "complex64", "half", "single", "csingle")


def narrow(it, d, called=True):
    """a conversion to less than double precision"""
    nm = d.name if isinstance(d, Ext) else d if isinstance(d, str) else ""
    if called and nm.rsplit(".", 1)[-1] in NARROW:
        it.event("narrow-dtype", nm)


_kwcache = {}
FORWARD = ("_hstack", "_babs")


def understood(h, kw, name):
    """the model of a library function takes account of every keyword argument of the call"""
    kw = [k for k, v in kw.items() if v is not None and k not in ("copy", "subok", "sparse", "keepdims_", "like", "optimize",
          "indices_are_sorted", "unique_indices", "out_sharding", "wrap_negative_indices", "stable", "kind")]
    if not kw or name.startswith(("jax.", "functools.", "dataclasses", "collections", "itertools", "numpy.loadtxt",
                                  "scipy.interpolate")) and not name.startswith(("jax.lax.", "jax.nn.")) or "." not in name:
        return True
    c = _kwcache.get(h)
    if c is None:
        c, todo = set(), [h.__code__]
        while todo:
            k = todo.pop()
            for x in k.co_consts:
                if isinstance(x, str):
                    c.add(x)
                elif hasattr(x, "co_consts"):
                    todo.append(x)
            if h.__name__ in FORWARD:
                c |= {"axis"}
        _kwcache[h] = c
    return all(k in c for k in kw)


def call(it, name, args, kw):
    ns, base = split(name)
    narrow(it, kw.get("dtype"))
    kw = {k: v for k, v in kw.items() if k not in ("dtype", "precision", "out", "casting", "order", "device")}
    # math.prod multiplies what it is given, it converts nothing
    if (ns in ("numpy", "math", "cmath") and name != "math.prod" or name.startswith("scipy.")) and traced(list(args)):
        if not getattr(it, "host_ok", False):
            it.event("np-on-traced", "%s applied to a traced value" % name, *args)
    narrow(it, Ext(name), bool(args))
    if ns == "numpy" and base in HOSTMAKE:
        r = (T.get(name) or T["A." + base])(it, args, kw) if name in T or "A." + base in T else None
        if isinstance(r, Vec):
            return Vec(r.items, r.owner, True)
        if r is not None:
            return r
    full = T.get(name)
    if full is not None and understood(full, kw, name):
        return full(it, args, kw)
    if ns and full is None:
        h = T.get("A." + base)
        if h is not None and understood(h, kw, name):
            return h(it, args, kw)
        if ns == "operator" and base in OPER and base != "neg":
            return it.binop(OPER[base], args[0], args[1])
        if ns == "operator" and base == "neg":
            return elementwise(ir.neg)(it, args, kw)
        if base in ELEM and ELEM[base] is not None and (not kw or base == "nan_to_num"):
            if base == "nan_to_num":
                args = args[:1]
            return elementwise(ELEM[base])(it, args, {})
        if base in CMP and len(args) == 2:
            a = [Vec(x) if isinstance(x, (list, tuple)) else x for x in args]
            return it.compare1(CMP[base], a[0], a[1])
    for p in PURE_IGNORED:
        if name == p or name.startswith(p + "."):
            return None
    if name.startswith("typing."):
        return Opaque("typing")
    it.event("opaque-call", name)
    if any(isinstance(x, (Closure, Builtin)) for x in args):
        it.event("opaque-hof", name)
    ns_ = []
    for a in list(args) + [kw[k] for k in sorted(kw)]:
        try:
            ns_.append(it.keynode(a) if isinstance(a, (tuple, slice)) else N(a))
        except Exception:
            ns_.append(fn("py:" + type(a).__name__))
    n = fn("ext:" + name, *ns_)
    return Opaque(name, n)


# ---- array creation -------------------------------------------------------
def toarr(it, x):
    if isinstance(x, (list, tuple)):
        items = [toarr(it, i) for i in x]
        return Vec(items)
    if isinstance(x, Vec):
        return Vec(x.items)
    if isinstance(x, bool):
        return x
    if isinstance(x, int):
        return const(x)
    if isinstance(x, Instance):
        try:
            return toarr(it, it.iterate(x))
        except Unsupported:
            return x
    if isinstance(x, Node) and x in it.caller_owned:
        return x
    return x


@reg("A.array", "A.asarray", "A.atleast_1d", "A.asanyarray", "A.float_", "A.ascontiguousarray")
def _array(it, a, kw):
    x = a[0]
    if isinstance(x, Node) and x in it.caller_owned and kw.get("copy") is not False:
        return x
    return toarr(it, x)


@reg("A.copy", "A.astype", "A.device_put", "A.stop", "A.reshape_id", "A.asfarray", "A.copyto_")
def _copy(it, a, kw):
    if len(a) > 1:
        narrow(it, a[1])
    if len(a) > 1 and ((isinstance(a[1], Ext) and a[1].name.rsplit(".", 1)[-1] in INTS) or (isinstance(a[1], str) and a[1] in INTS)):
        return bc(lambda x: _toint(N(x)), a[0])
    if isinstance(a[0], Vec):
        return Vec(a[0].items)
    return a[0]


INTS = ("int", "int8", "int16", "int32", "int64", "uint8", "uint32", "uint64", "int_")


def _toint(n):
    """truncation towards zero"""
    n = num(n)
    if n.op == "const":
        v = n.args[0]
        return const(int(v))
    if ir.constsel(n) and ir.seltree(n) is not None:
        return ir.selmap(n, lambda k: const(int(k.args[0])), ir.where)
    return fn("toint", n)


def _nested(x):
    if isinstance(x, (list, tuple)):
        return Vec([_nested(i) for i in x])
    return x


def _rank(v):
    r = 0
    while isinstance(v, Vec):
        r, v = r + 1, v.items[0] if v.items else None
    return r


def _leaves(v):
    if not isinstance(v, Vec):
        return [v]
    return [y for i in v.items for y in _leaves(i)]


@reg("A.reshape")
def _reshape(it, a, kw):
    x = _nested(a[0])
    shp = a[1:] if len(a) > 2 else a[1] if len(a) > 1 else kw.get("shape", kw.get("newshape"))
    if isinstance(x, Node) and (has_grid(x) or shp is None):
        return x
    dims = [static_int(d) for d in (shp.items if isinstance(shp, Vec) else shp if isinstance(shp, (tuple, list)) else [shp])]
    if any(d is None for d in dims):
        if isinstance(x, Node):
            return x
        return Opaque("reshape", fn("opaque:reshape", N(x)))
    flat = _leaves(x)
    if any(isinstance(i, Node) and has_grid(i) for i in flat):
        if dims == [-1] or len(dims) == 1 and dims[0] == len(flat):
            return Vec(flat) if isinstance(x, Vec) else x
        return Opaque("reshape", fn("opaque:reshape", N(x)))
    k = 1
    for d in dims:
        k *= d if d != -1 else 1
    if -1 in dims:
        if not k or len(flat) % k:
            raise StaticRaise("TypeError", "reshape")
        dims[dims.index(-1)] = len(flat) // k
    elif k != len(flat):
        raise StaticRaise("TypeError", "reshape")
    if not dims:
        return flat[0]

    def build(xs, ds):
        if len(ds) == 1:
            return Vec(xs)
        n = len(xs) // ds[0] if ds[0] else 0
        return Vec([build(xs[i * n:(i + 1) * n], ds[1:]) for i in range(ds[0])])
    return build(flat, dims)


@reg("A.ravel")
def _ravel(it, a, kw):
    x = _nested(a[0])
    return Vec(_leaves(x)) if isinstance(x, Vec) else x


@reg("A.squeeze")
def _squeeze(it, a, kw):
    x = _nested(a[0])
    ax = kw.get("axis", a[1] if len(a) > 1 else None)
    if not isinstance(x, Vec):
        return x
    if ax is None:
        def go(v):
            if not isinstance(v, Vec):
                return v
            return go(v.items[0]) if len(v) == 1 else Vec([go(i) for i in v.items])
        return go(x)
    r = _rank(x)
    for k in sorted([static_int(k) % r for k in (ax if isinstance(ax, (tuple, list)) else (ax,))], reverse=True):
        def drop(v, k):
            return v.items[0] if k == 0 else Vec([drop(i, k - 1) for i in v.items])
        x = drop(x, k)
    return x


def _dims(shape):
    if isinstance(shape, (tuple, list)):
        return list(shape)
    return [shape]


def _filled(it, shape, v):
    dims = _dims(shape)
    for d in reversed(dims):
        i = static_int(d)
        if i is None:
            n = N(d)
            if not (n.op in ("fn:len", "fn:shape") or n.op == "fn:item" and n.args[0].op == "fn:shape"):
                if not I_.static_extent(n):
                    it.event("dynamic-shape", "an array whose length depends on a traced value", n)
                return fn("filled", n, num(v))
            continue            # grid length: elementwise value
        if i > 4000:
            return Opaque("filled", fn("filled", const(i), num(v)))
        v = Vec([v] * i)
    return v


@reg("A.zeros", "A.empty")
def _zeros(it, a, kw):
    return _filled(it, a[0] if a else kw["shape"], ir.ZERO)


@reg("A.ones")
def _ones(it, a, kw):
    return _filled(it, a[0] if a else kw["shape"], ir.ONE)


@reg("A.full")
def _full(it, a, kw):
    v = a[1] if len(a) > 1 else kw["fill_value"]
    return _filled(it, a[0] if a else kw["shape"], num(v))


def _like(it, x, v):
    if isinstance(x, (list, tuple)):
        x = Vec(x)
    if isinstance(x, Vec):
        return Vec([_like(it, i, v) for i in x.items])
    return v


@reg("A.zeros_like", "A.empty_like")
def _zl(it, a, kw):
    return _like(it, a[0], ir.ZERO)


@reg("A.ones_like")
def _ol(it, a, kw):
    return _like(it, a[0], ir.ONE)


@reg("A.full_like")
def _fl(it, a, kw):
    return _like(it, a[0], num(a[1] if len(a) > 1 else kw["fill_value"]))


@reg("A.eye", "A.identity")
def _eye(it, a, kw):
    n = static_int(a[0])
    return Vec([Vec([ir.ONE if i == j else ir.ZERO for j in range(n)]) for i in range(n)])


@reg("A.diag")
def _diag(it, a, kw):
    x = a[0]
    if isinstance(x, (list, tuple)):
        x = Vec(x)
    if isinstance(x.items[0], Vec):
        return Vec([r.items[i] for i, r in enumerate(x.items)])
    n = len(x)
    return Vec([Vec([x.items[i] if i == j else ir.ZERO for j in range(n)]) for i in range(n)])


@reg("A.arange")
def _arange(it, a, kw):
    v = [static_int(x) for x in a]
    if all(x is not None for x in v) and len(range(*v)) <= 4000:
        return Vec([const(i) for i in range(*v)])
    for x in a:
        if not I_.static_extent(N(x)):
            it.event("dynamic-shape", "an array whose length depends on a traced value", x)
    return Opaque("arange", fn("arange", *[N(x) for x in a]))


@reg("A.linspace")
def _linspace(it, a, kw):
    start, stop = num(a[0] if a else kw["start"]), num(a[1] if len(a) > 1 else kw["stop"])
    n = static_int(a[2] if len(a) > 2 else kw.get("num", 50))
    ep = kw.get("endpoint", a[3] if len(a) > 3 else True)
    if n is not None and n <= 64:
        d = n - 1 if ep else n
        return Vec([ir.add(start, ir.mul(ir.sub(stop, start), const(Fr(i, max(d, 1))))) for i in range(n)])
    return fn("linspace", start, stop, N(n) if n is not None else N(a[2]), const(1 if ep else 0))


@reg("A.meshgrid")
def _mesh(it, a, kw):
    raise Unsupported("meshgrid")


@reg("A.stack")
def _stack(it, a, kw):
    ax = static_int(kw.get("axis", a[1] if len(a) > 1 else 0))
    v = Vec([_nested(x) for x in it.iterate(a[0])])
    if ax in (0, None):
        return v
    if v.items and isinstance(v.items[0], Vec):
        if ax == 1 or (ax == -1 and _rank(v) == 2):
            return it.transpose(v)
        if ax in (2, -1) and _rank(v) == 3:
            return Vec([it.transpose(Vec(list(r))) for r in zip(*[x.items for x in v.items])])
        return Opaque("stack", fn("opaque:stack", N(v)))
    return Vec(v.items)          # stacking grid values along the trailing axis


@reg("A.vstack", "A.row_stack", "A.array_stack")
def _vstack(it, a, kw):
    xs = [_nested(x) for x in it.iterate(a[0])]
    if xs and _rank(xs[0]) >= 2:
        return Vec([i for x in xs for i in x.items])
    if xs and not isinstance(xs[0], Vec) and not any(has_grid(N(x)) for x in xs):
        return Vec([Vec([x]) for x in xs])
    return Vec(xs)


@reg("A.column_stack")
def _cstack(it, a, kw):
    xs = [_nested(x) for x in it.iterate(a[0])]
    if xs and isinstance(xs[0], Vec):
        cols = []
        for x in xs:
            cols += list(it.transpose(x).items) if _rank(x) == 2 else [x]
        return it.transpose(Vec(cols))
    return Vec(xs)


@reg("A.atleast_2d")
def _al2(it, a, kw):
    x = _nested(a[0])
    return Vec([x]) if _rank(x) == 1 else Vec([Vec([x])]) if isinstance(x, Node) and not has_grid(x) else x


@reg("A.hstack")
def _hstack(it, a, kw):
    return _concat(it, a, kw)


@reg("A.concatenate", "A.append", "A.r_")
def _concat(it, a, kw):
    parts = it.iterate(a[0]) if len(a) == 1 or isinstance(a[0], (tuple, list)) else [a[0], a[1]]
    out = []
    if all(isinstance(p, (Vec, list, tuple)) for p in parts):
        for p in parts:
            out.extend(p.items if isinstance(p, Vec) else list(p))
        return Vec(out)
    return fn("concat", *[to_whole(num(p)) for p in parts])


@reg("A.broadcast_to")
def _idarr(it, a, kw):
    x = _nested(a[0])
    shp = kw.get("shape", a[1] if len(a) > 1 else None)
    dims = [static_int(d) for d in (shp if isinstance(shp, (tuple, list)) else [shp])]
    if isinstance(x, Node) and has_grid(x) or any(d is None for d in dims):
        return x

    def go(v, ds):
        if not ds:
            return v
        if _rank(v) == len(ds):
            return Vec([go(v.items[i if len(v) > 1 else 0], ds[1:]) for i in range(ds[0])])
        return Vec([go(v, ds[1:]) for i in range(ds[0])])
    return go(x, dims)


@reg("A.expand_dims")
def _xdims(it, a, kw):
    x = _nested(a[0])
    ax = kw.get("axis", a[1] if len(a) > 1 else 0)
    if not isinstance(x, Vec):
        return x if has_grid(N(x)) else Vec([x])
    for k in sorted([static_int(k) for k in (ax if isinstance(ax, (tuple, list)) else (ax,))]):
        r = _rank(x) + 1

        def go(v, k):
            return Vec([v]) if k == 0 else Vec([go(i, k - 1) for i in v.items])
        x = go(x, k % r)
    return x


@reg("A.moveaxis", "A.swapaxes")
def _mvaxis(it, a, kw):
    x = _nested(a[0])
    if not isinstance(x, Vec):
        return x
    if _rank(x) == 2:
        p, q = static_int(a[1]) % 2, static_int(a[2]) % 2
        return x if p == q else it.transpose(x)
    if _rank(x) == 1:
        return x
    return Opaque("moveaxis", fn("opaque:moveaxis", N(x)))


@reg("A.broadcast_arrays")
def _bca(it, a, kw):
    return list(a)


@reg("A.transpose")
def _tr(it, a, kw):
    return it.transpose(a[0])


def _along(x, axis, f):
    """apply f to the lists along one axis of a nested array"""
    depth, y = 0, x
    while isinstance(y, Vec):
        depth += 1
        y = y.items[0] if y.items else None
    if axis < 0:
        axis += depth

    def walk(v, k):
        if k == 0:
            return Vec(f(list(v.items)))
        return Vec([walk(i, k - 1) for i in v.items])
    return walk(x, axis), depth


@reg("A.flip", "A.flipud", "A.fliplr", "jax.lax.rev")
def _flip(it, a, kw):
    ax = kw.get("axis", kw.get("dimensions", a[1] if len(a) > 1 else None))
    x = a[0]
    if isinstance(x, (list, tuple)):
        x = toarr(it, x)
    if not isinstance(x, Vec):
        return fn("flip", to_whole(N(x)))
    if ax is None:
        def allax(v):
            return Vec([allax(i) if isinstance(i, Vec) else i for i in v.items][::-1])
        return allax(x)
    for k in (ax if isinstance(ax, (tuple, list)) else (ax,)):
        x = _along(x, static_int(k), lambda xs: xs[::-1])[0]
    return x


def _network(xs):
    """the sorted list of a few scalars"""
    xs = [num(x) for x in xs]
    for i in range(len(xs)):
        for j in range(len(xs) - 1 - i):
            xs[j], xs[j + 1] = ir.minimum(xs[j], xs[j + 1]), ir.maximum(xs[j], xs[j + 1])
    return xs


@reg("A.sort", "jax.lax.sort", "A.msort")
def _sort(it, a, kw):
    x = a[0]
    if isinstance(x, (list, tuple)):
        x = toarr(it, x)
    if not isinstance(x, Vec):
        return fn("sort", to_whole(N(x)))
    ax = static_int(kw.get("axis", kw.get("dimension", a[1] if len(a) > 1 else -1)))
    d, y = 0, x
    while isinstance(y, Vec):
        d, y = d + 1, y.items[0] if y.items else None
    if ax < 0:
        ax += d
    desc = bool(kw.get("descending"))

    def go(v, k):
        if k == 0:
            if isinstance(v.items[0], Vec):
                cols = [go(Vec(list(c)), 0).items for c in zip(*[i.items for i in v.items])]
                return Vec([Vec(list(r)) for r in zip(*cols)])
            if len(v) > 6:
                raise Unsupported("sort of a long array")
            r = _network(v.items)
            return Vec(r[::-1] if desc else r)
        return Vec([go(i, k - 1) for i in v.items])
    return go(x, ax)


@reg("A.split", "A.array_split")
def _asplit(it, a, kw):
    x = a[0]
    if isinstance(x, (list, tuple)):
        x = toarr(it, x)
    at = kw.get("indices_or_sections", a[1] if len(a) > 1 else None)
    ax = static_int(kw.get("axis", a[2] if len(a) > 2 else 0))
    if not isinstance(x, Vec):
        raise Unsupported("split of a symbolic array")
    d, y = 0, x
    while isinstance(y, Vec):
        d, y = d + 1, y.items[0] if y.items else None
    if ax < 0:
        ax += d

    def cuts(n):
        if isinstance(at, (list, tuple, Vec)):
            return [0] + [static_int(i) for i in (at.items if isinstance(at, Vec) else at)] + [n]
        k = static_int(at)
        return [i * n // k for i in range(k + 1)]

    def go(v, k):
        if k == 0:
            c = cuts(len(v))
            return [Vec(v.items[i:j]) for i, j in zip(c, c[1:])]
        parts = [go(i, k - 1) for i in v.items]
        return [Vec(list(p)) for p in zip(*parts)]
    return go(x, ax)


@reg("A.shape")
def _shape(it, a, kw):
    return it.attr(a[0], "shape")


@reg("A.ndim")
def _ndim(it, a, kw):
    return it.attr(a[0], "ndim")


@reg("A.size")
def _size(it, a, kw):
    return it.attr(a[0], "size")


@reg("A.iscomplexobj")
def _isc(it, a, kw):
    return I_._has_I(N(a[0]))


# ---- selection -----------------------------------------------------------
@reg("A.where", "A.select_n_")
def _where(it, a, kw):
    if len(a) == 1:
        it.event("dynamic-shape", "indices of the true entries of a data dependent mask", a[0])
        return (fn("nonzero", to_whole(N(a[0]))),)
    c, x, y = [Vec(v) if isinstance(v, (list, tuple)) else v for v in a[:3]]
    if any(isinstance(v, Vec) for v in (c, x, y)):
        return bc(lambda q, u, v: it.where(B(q), num(u), num(v)), c, x, y)
    return it.where(B(c), num(x), num(y))


for _k in ("nonzero", "argwhere", "flatnonzero", "unique", "compress", "extract"):
    def _mkdyn(k):
        def f(it, a, kw):
            if traced(list(a)) and kw.get("size") is None:
                it.event("dynamic-shape", "%s() of a traced value" % k, *a)
            n = fn(k, *[to_whole(N(x)) for x in a])
            return (n,) if k == "nonzero" else n
        return f
    T["A." + _k] = _mkdyn(_k)


@reg("jax.lax.select")
def _lselect(it, a, kw):
    return it.where(B(a[0]), a[1], a[2])


@reg("jax.lax.select_n")
def _lselectn(it, a, kw):
    c = N(a[0])
    if ir.is_bool(c) and len(a) == 3:
        return it.where(c, a[2], a[1])
    if ir.constsel(c):
        return it.pick(c, list(a[1:]))
    out = a[-1]
    for j in range(len(a) - 3, -1, -1):
        out = it.where(ir.lt(c, const(Fr(2 * j + 1, 2))), a[1 + j], out)
    return out


@reg("A.select")
def _select(it, a, kw):
    conds, vals = it.iterate(a[0]), it.iterate(a[1])
    d = a[2] if len(a) > 2 else kw.get("default", 0)
    out = d
    for c, v in reversed(list(zip(conds, vals))):
        out = _where(it, [c, v, out], {})
    return out


@reg("A.piecewise")
def _piecewise(it, a, kw):
    x = a[0]
    conds, fs = it.iterate(a[1]), it.iterate(a[2])
    extra = list(a[3:])

    def val(f):
        return it.call(f, [x] + extra, {}) if isinstance(f, (Closure, Builtin, Ext)) else f
    out = val(fs[-1]) if len(fs) > len(conds) else ir.ZERO
    for c, f in zip(conds, fs):             # the last condition that holds decides
        out = _where(it, [c, val(f), out], {})
        if not isinstance(x, Node) or "f" not in {d.lstrip("@") for d in ir.deps(x)}:
            lazy(it, out)                   # a switch for scalars
    return out


@reg("A.clip", "A.clamp")
def _clip(it, a, kw):
    x = a[0]
    lo = a[1] if len(a) > 1 else kw.get("a_min", kw.get("min"))
    hi = a[2] if len(a) > 2 else kw.get("a_max", kw.get("max"))

    def f(v):
        v = num(v)
        if lo is not None and N(lo) is not ir.INF:
            v = ir.maximum(v, num(lo))
        if hi is not None and N(hi) is not ir.INF:
            v = ir.minimum(v, num(hi))
        return v
    return bc(f, Vec(x) if isinstance(x, (list, tuple)) else x)


@reg("jax.lax.clamp")
def _clamp(it, a, kw):
    return _clip(it, [a[1], a[0], a[2]], {})


@reg("jax.lax.cond")
def _cond(it, a, kw):
    c = B(a[0])
    if c is ir.TRUE:
        return it.call(a[1], list(a[3:]) + ([kw["operand"]] if "operand" in kw else []), {})
    if c is ir.FALSE:
        return it.call(a[2], list(a[3:]) + ([kw["operand"]] if "operand" in kw else []), {})
    tf, ff = a[1], a[2]
    ops = list(a[3:]) + ([kw["operand"]] if "operand" in kw else [])
    x = it.call(tf, ops, {})
    y = it.call(ff, ops, {})
    r = it.where(c, x, y)
    lazy(it, r)
    return r


def lazy(it, r):
    """only one branch is evaluated: its selection does not mix derivatives of the other"""
    if isinstance(r, Node):
        if r.op == "where":
            it.condnodes.add(r)
    elif isinstance(r, dict):
        for x in r.values():
            lazy(it, x)
    elif isinstance(r, (tuple, list, Vec)):
        for x in it.iterate(r):
            lazy(it, x)


@reg("jax.lax.switch")
def _switch(it, a, kw):
    i = static_int(a[0])
    fs = it.iterate(a[1])
    if i is not None:
        return it.call(fs[max(0, min(i, len(fs) - 1))], list(a[2:]), {})
    n = N(a[0])
    if ir.constsel(n):
        out = [it.call(g, list(a[2:]), {}) for g in fs]
        r = it.pick(n, out)
        lazy(it, r)
        return r
    # a boolean sum index is resolved by comparing with each branch number
    out = it.call(fs[-1], list(a[2:]), {})
    for j in range(len(fs) - 2, -1, -1):
        out = it.where(ir.lt(n, const(Fr(2 * j + 1, 2))), it.call(fs[j], list(a[2:]), {}), out)
        lazy(it, out)
    return out


@reg("jax.lax.fori_loop")
def _fori(it, a, kw):
    lo, hi = static_int(a[0]), static_int(a[1])
    if lo is None or hi is None:
        it.event("no-reverse-mode", "fori_loop with traced bounds", *a[:2])
    if lo is None or hi is None or hi - lo > 20000:
        raise Unsupported("fori_loop bounds")
    v = a[3]
    for i in range(lo, hi):
        v = it.call(a[2], [const(i), v], {})
    return v


@reg("jax.lax.while_loop")
def _while(it, a, kw):
    v = a[2]
    for _ in range(20000):
        c = B(it.call(a[0], [v], {}))
        if c is ir.FALSE:
            return v
        if c is not ir.TRUE:
            break
        v = it.call(a[1], [v], {})
    it.event("no-reverse-mode", "while_loop on a traced condition", c)
    raise Unsupported("while_loop on traced condition")


def _lead(it, xs):
    if isinstance(xs, (tuple, list)) and not isinstance(xs, Vec):
        n = [_lead(it, x) for x in xs]
        return n[0] if n else 0
    if isinstance(xs, dict):
        return _lead(it, list(xs.values()))
    if isinstance(xs, Instance):
        return _lead(it, list(xs.d.values()))
    if isinstance(xs, Vec):
        return len(xs)
    return None


def _slice0(it, xs, i):
    if isinstance(xs, tuple):
        return tuple(_slice0(it, x, i) for x in xs)
    if isinstance(xs, list):
        return [_slice0(it, x, i) for x in xs]
    if isinstance(xs, dict):
        return {k: _slice0(it, x, i) for k, x in xs.items()}
    if xs is None:
        return None
    return xs.items[i]


def _stackout(it, outs):
    o = outs[0]
    if isinstance(o, (tuple, list)):
        return type(o)(_stackout(it, [x[j] for x in outs]) for j in range(len(o)))
    if o is None:
        return None
    return Vec(outs)


@reg("jax.lax.scan")
def _scan(it, a, kw):
    f, init = a[0], a[1]
    xs = a[2] if len(a) > 2 else kw.get("xs")
    n = _lead(it, xs)
    if n is None:
        n = static_int(kw.get("length"))
    if n is None:
        raise Unsupported("scan length")
    c, ys = init, []
    for i in range(n):
        c, y = it.iterate(it.call(f, [c, _slice0(it, xs, i)], {}), hint=2)
        ys.append(y)
    return (c, _stackout(it, ys) if ys else None)


@reg("jax.lax.map")
def _lmap(it, a, kw):
    return it.call(call(it, "jax.vmap", [a[0]], {}), [a[1]], {})


# ---- reductions -----------------------------------------------------------
@reg("A.sum", "A.nansum")
def _sum(it, a, kw):
    return it.sum_(a[0], kw.get("axis", a[1] if len(a) > 1 else None))


@reg("A.prod", "math.prod", "A.nanprod")
def _prod(it, a, kw):
    x = _nested(a[0])
    if isinstance(x, Node):
        return it.reduce("prod", x)
    if not isinstance(x, Vec):
        x = Vec(list(it.iterate(x)))
    ax = kw.get("axis", a[1] if len(a) > 1 else None)
    if ax is None and any(has_grid(N(y)) for y in _leaves(x)) and isinstance(a[0], Vec):
        return fn("opaque:prod", to_whole(N(x)))
    if ax is None:
        acc = ir.ONE
        for y in _leaves(x):
            acc = it.binop("Mult", acc, y)
        return acc
    ax = static_int(ax)
    if ax is not None and ax < 0:
        ax += _rank(x)
    if ax == 0:
        acc = 1
        for y in x.items:
            acc = it.binop("Mult", acc, y)
        return acc
    if ax == 1 and _rank(x) > 1:
        return Vec([_prod(it, [r], {"axis": 0}) for r in x.items])
    raise Unsupported("prod axis")


@reg("math.fsum")
def _fsum(it, a, kw):
    return it.sum_(Vec(it.iterate(a[0])))


@reg("A.average")
def _average(it, a, kw):
    w = kw.get("weights", a[2] if len(a) > 2 else None)
    ax = kw.get("axis", a[1] if len(a) > 1 else None)
    if w is None:
        return _mean(it, a[:1], {"axis": ax})
    x, w = _nested(a[0]), _nested(w)
    if not isinstance(x, Vec) or not isinstance(w, Vec):
        return fn("opaque:average", to_whole(num(x)), to_whole(num(w)))
    if ax is not None and _rank(x) == 2 and _rank(w) == 1:
        x = it.transpose(x) if static_int(ax) == 0 else x
        return Vec([_average(it, [r], {"weights": w}) for r in x.items])
    return it.binop("Div", it.sum_(it.binop("Mult", x, w)), it.sum_(w))


@reg("A.mean")
def _mean(it, a, kw):
    x = _nested(a[0])
    ax = kw.get("axis", a[1] if len(a) > 1 else None)
    if isinstance(x, Vec):
        if ax is None:
            k = len(_leaves(x))
        else:
            k = (it.shape(x) or (None,) * 9)[static_int(ax)]
        if k:
            r = it.sum_(x, ax)
            return it.binop("Div", r, k) if not has_grid(N(x)) else fn("opaque:mean", to_whole(N(x)))
    return it.reduce("mean", num(x))


def _fold(it, x, f, kind, axis=None):
    if isinstance(x, (list, tuple)):
        x = Vec(x)
    if isinstance(x, Vec):
        if axis is not None and static_int(axis) not in (0,) and isinstance(x.items[0], Vec):
            return Vec([_fold(it, i, f, kind, None) for i in x.items])
        acc = x.items[0]
        for i in x.items[1:]:
            acc = bc(lambda u, v: f(num(u), num(v)), acc, i)
        if axis is None and isinstance(acc, Vec):
            return _fold(it, acc, f, kind)
        return acc
    n = num(x)
    if axis is not None:
        return fn(kind + "_axis", n, N(axis))
    return it.reduce(kind, n)


@reg("A.max", "A.amax", "A.nanmax")
def _max(it, a, kw):
    return _fold(it, a[0], ir.maximum, "max", kw.get("axis", a[1] if len(a) > 1 else None))


@reg("A.min", "A.amin", "A.nanmin")
def _min(it, a, kw):
    return _fold(it, a[0], ir.minimum, "min", kw.get("axis", a[1] if len(a) > 1 else None))


@reg("A.argmin")
def _argmin(it, a, kw):
    return _arg(it, a, "argmin")


@reg("A.argmax")
def _argmax(it, a, kw):
    return _arg(it, a, "argmax")


def _arg(it, a, kind):
    x = a[0]
    if isinstance(x, (Vec, list, tuple)):
        return fn(kind, vecnode(x))
    n = N(x)
    return mk("fn:" + kind, (to_whole(n),))


@reg("A.searchsorted")
def _ss(it, a, kw):
    return _search(it, a[0], a[1], kw.get("side", a[2] if len(a) > 2 else "left"))


@reg("A.digitize")
def _digitize(it, a, kw):
    right = kw.get("right", a[2] if len(a) > 2 else False)
    return _search(it, a[1], a[0], "left" if B(right) is ir.TRUE else "right")


def _search(it, pts, x, side):
    """the number of points (in ascending order) below x, those equal to x included on the right"""
    v = Vec(pts) if isinstance(pts, (list, tuple)) else pts
    if isinstance(v, Vec) and len(v) <= 12 and side in ("left", "right") and not any(
            isinstance(y, Vec) or has_grid(N(y)) for y in v.items):
        f = ir.lt if side == "left" else ir.le
        one = lambda q: ir.add(*[ir.where(f(num(y), num(q)), ir.ONE, ir.ZERO) for y in v.items])
        return bc(one, Vec(x) if isinstance(x, (list, tuple)) else x)
    return fn("opaque:searchsorted", to_whole(N(pts)), N(x), fn("py:" + repr(side)))


@reg("A.choose")
def _choose(it, a, kw):
    vals = it.iterate(a[1])
    return it.pick(N(a[0]), vals)


@reg("A.all")
def _all(it, a, kw):
    return _allany(it, a[0], True)


@reg("A.any")
def _any(it, a, kw):
    return _allany(it, a[0], False)


def _allany(it, x, isall):
    if isinstance(x, (list, tuple)):
        x = Vec(x)
    if isinstance(x, Vec):
        acc = ir.TRUE if isall else ir.FALSE
        for i in x.items:
            b = B(_allany(it, i, isall) if isinstance(i, Vec) else i)
            acc = ir.and_(acc, b) if isall else ir.or_(acc, b)
        return True if acc is ir.TRUE else False if acc is ir.FALSE else acc
    if isinstance(x, bool):
        return x
    n = N(x)
    if has_grid(n):
        return fn("boolext", fn("all" if isall else "any", to_whole(n)))
    b = B(n)
    return True if b is ir.TRUE else False if b is ir.FALSE else b


@reg("A.logical_and", "A.bitwise_and")
def _land(it, a, kw):
    return bc(lambda x, y: ir.and_(B(x), B(y)), *a)


@reg("A.logical_or", "A.bitwise_or")
def _lor(it, a, kw):
    return bc(lambda x, y: ir.or_(B(x), B(y)), *a)


@reg("A.logical_not", "A.invert", "A.bitwise_not")
def _lnot(it, a, kw):
    return bc(lambda x: ir.not_(B(x)), *a)


@reg("A.allclose", "A.isclose", "A.array_equal")
def _allclose(it, a, kw):
    return fn("boolext", fn("allclose", *[to_whole(N(x)) for x in a]))


@reg("A.diff")
def _diff(it, a, kw):
    x = a[0]
    if isinstance(x, Vec):
        return Vec([it.binop("Sub", q, p) for p, q in zip(x.items, x.items[1:])])
    return fn("diffarr", to_whole(N(x)))


@reg("A.cumsum")
def _cumsum(it, a, kw):
    x = a[0]
    if isinstance(x, (Vec, list, tuple)):
        acc, out = ir.ZERO, []
        for i in it.iterate(x):
            acc = it.binop("Add", acc, i)
            out.append(acc)
        return Vec(out)
    return fn("cumsum", to_whole(N(x)))


@reg("A.cumprod")
def _cumprod(it, a, kw):
    x = a[0]
    if not isinstance(x, (Vec, list, tuple)):
        return fn("opaque:cumprod", to_whole(N(x)))
    acc, out = ir.ONE, []
    for i in it.iterate(x):
        acc = it.binop("Mult", acc, i)
        out.append(acc)
    return Vec(out)


@reg("A.trapz", "A.trapezoid", "scipy.integrate.trapezoid")
def _trapz(it, a, kw):
    return fn("trapz", *[to_whole(N(x)) for x in a])


@reg("A.gradient")
def _gradient(it, a, kw):
    return fn("gradient", *[to_whole(N(x)) for x in a])


# ---- linear algebra --------------------------------------------------------
@reg("A.vdot", "A.vecdot")
def _vdot(it, a, kw):
    x = a[0]
    if isinstance(x, (list, tuple, Vec)):
        x = Vec([I_.conj(num(v)) for v in it.iterate(x)])
    else:
        x = I_.conj(num(x))
    return _dot(it, [x, a[1]], kw)


@reg("A.dot", "A.inner", "A.matmul")
def _dot(it, a, kw):
    x, y = [Vec(v) if isinstance(v, (list, tuple)) else v for v in a[:2]]
    if isinstance(x, Vec) and isinstance(y, Vec):
        return it.matmul(x, y)
    if isinstance(x, Vec) or isinstance(y, Vec):
        return it.binop("Mult", x, y)
    if has_grid(N(x)) or has_grid(N(y)):
        return it.reduce("sum", ir.mul(num(x), num(y)))
    return it.binop("Mult", x, y)


@reg("A.outer")
def _outer(it, a, kw):
    return Vec([it.binop("Mult", x, Vec(it.iterate(a[1]))) for x in it.iterate(a[0])])


@reg("A.cross")
def _cross(it, a, kw):
    x, y = it.iterate(a[0]), it.iterate(a[1])
    m = lambda i, j: it.binop("Sub", it.binop("Mult", x[i], y[j]), it.binop("Mult", x[j], y[i]))
    return Vec([m(1, 2), m(2, 0), m(0, 1)])


@reg("A.einsum")
def _einsum(it, a, kw):
    if not isinstance(a[0], str):
        raise Unsupported("einsum")
    spec = a[0].replace(" ", "")
    ops = [_nested(v) for v in a[1:]]
    ins, arrow, out = spec.partition("->")
    ins = ins.split(",")
    if not arrow:
        letters = "".join(ins).replace("...", "")
        out = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
    for s, v in zip(ins, ops):
        if "..." in s and not s.endswith("...") and _rank(v) > len(s) - 3:
            raise Unsupported("einsum ellipsis")
    ins = [s.replace("...", "") for s in ins]       # the remaining axes broadcast elementwise
    out = out.replace("...", "")
    dims, grid = {}, set()

    def walk(v, s):
        k = len(s) - _rank(v)
        if k < 0 and "..." not in spec or k > 1:
            raise Unsupported("einsum axes")
        # a grid value has its frequency axis beside the known ones
        g = [c for c in s if c in grid_letters][:1] if k == 1 else []
        if k == 1 and not g:
            raise Unsupported("einsum axes")
        grid.update(g)
        s = "".join(c for c in s if c not in g)
        for ch in s:
            n = dims.setdefault(ch, len(v))
            if n != len(v) and 1 not in (n, len(v)):
                raise StaticRaise("ValueError", "einsum axis %s has lengths %d and %d" % (ch, n, len(v)))
            v = v.items[0]
        return s
    known = set()
    for s, v in zip(ins, ops):
        if _rank(v) == len(s):
            known |= set(s)
    grid_letters = set("".join(ins)) - known
    ins = [walk(v, s) for s, v in zip(ins, ops)]
    if grid & set(dims):
        raise Unsupported("einsum axes")
    summed = [c for c in grid if c not in out]
    out = "".join(c for c in out if c not in grid)
    rest = [c for c in dims if c not in out]

    def at(v, s, idx):
        for ch in s:
            v = v.items[idx[ch]]
        return v

    def build(o, idx):
        if o:
            return Vec([build(o[1:], {**idx, o[0]: i}) for i in range(dims[o[0]])])
        acc = ir.ZERO

        def rec(r, idx):
            nonlocal acc
            if not r:
                t = ir.ONE
                for s, v in zip(ins, ops):
                    t = it.binop("Mult", t, at(v, s, idx))
                acc = it.binop("Add", acc, t)
                return
            for i in range(dims[r[0]]):
                rec(r[1:], {**idx, r[0]: i})
        rec(rest, idx)
        if summed:
            acc = it.reduce("sum", num(acc))
        return acc
    return build(out, {})


@reg("A.tensordot")
def _tensordot(it, a, kw):
    x, y = [_nested(v) for v in a[:2]]
    axes = a[2] if len(a) > 2 else kw.get("axes", 2)
    rx, ry = [_rank(v) + any(has_grid(N(l)) for l in _leaves(v)) for v in (x, y)]
    if isinstance(axes, (list, tuple, Vec)):
        ax = [[static_int(j) for j in it.iterate(v)] if isinstance(v, (list, tuple, Vec)) else [static_int(v)]
              for v in it.iterate(axes)]
    else:
        k = static_int(axes)
        if k is None:
            raise Unsupported("tensordot axes")
        ax = [list(range(rx - k, rx)), list(range(k))]
    if len(ax) != 2 or len(ax[0]) != len(ax[1]) or any(j is None for v in ax for j in v):
        raise Unsupported("tensordot axes")
    letters = "abcdefghijklmnopqrstuvwxyz"
    sx, sy = list(letters[:rx]), list(letters[rx:rx + ry])
    ox, oy = list(sx), list(sy)
    for i, j in zip(*ax):
        if not (-rx <= i < rx and -ry <= j < ry):
            raise StaticRaise("ValueError", "tensordot over an axis that does not exist")
        ox.remove(sx[i])
        oy.remove(sy[j])
        sy[j] = sx[i]
    return _einsum(it, ["%s,%s->%s" % ("".join(sx), "".join(sy), "".join(ox + oy)), x, y], {})


@reg("A.polyval")
def _polyval(it, a, kw):
    acc = ir.ZERO
    for c in it.iterate(a[0]):
        acc = it.binop("Add", it.binop("Mult", acc, a[1]), c)
    return acc


@reg("A.polynomial.polynomial.polyval")
def _ppolyval(it, a, kw):
    acc = ir.ZERO
    for c in reversed(it.iterate(a[1])):
        acc = it.binop("Add", it.binop("Mult", acc, a[0]), c)
    return acc


@reg("A.vander")
def _vander(it, a, kw):
    xs = it.iterate(a[0])
    n = static_int(a[1] if len(a) > 1 else kw.get("N", len(xs)))
    inc = kw.get("increasing", a[2] if len(a) > 2 else False)
    ex = list(range(n)) if inc else list(range(n - 1, -1, -1))
    return Vec([Vec([ir.power(num(x), e) for e in ex]) for x in xs])


@reg("A.linalg.norm")
def _norm(it, a, kw):
    x = a[0]
    if isinstance(x, (Vec, list, tuple)):
        acc = ir.ZERO
        for i in it.iterate(x):
            acc = it.binop("Add", acc, it.binop("Pow", i, 2))
        return bc(lambda v: _half(num(v)), acc)
    n = num(x)
    return _half(it.reduce("sum", ir.power(ir.abs_(n), 2)))


def _mat(it, A):
    A = [it.iterate(r) for r in it.iterate(A)]
    return [[num(x) for x in r] for r in A]


def _solve_nodes(A, b):
    n = len(A)
    if all(x is ir.ZERO for x in b):
        return [ir.ZERO] * n
    if n == 1:
        return [ir.div(b[0], A[0][0])]
    if n == 2:
        d = ir.sub(ir.mul(A[0][0], A[1][1]), ir.mul(A[0][1], A[1][0]))
        return [ir.div(ir.sub(ir.mul(b[0], A[1][1]), ir.mul(A[0][1], b[1])), d),
                ir.div(ir.sub(ir.mul(A[0][0], b[1]), ir.mul(b[0], A[1][0])), d)]
    ent = tuple(x for r in A for x in r) + tuple(b)
    return [mk("fn:solve", (i, n) + ent) for i in range(n)]


@reg("A.linalg.solve", "scipy.linalg.solve", "A.scipy.linalg.solve")
def _solve(it, a, kw):
    A = _mat(it, a[0])
    b = it.iterate(a[1])
    if b and isinstance(b[0], Vec):
        cols = [[num(r.items[j]) for r in b] for j in range(len(b[0]))]
        sols = [_solve_nodes(A, c) for c in cols]
        return Vec([Vec([s[i] for s in sols]) for i in range(len(A))])
    if len(b) != len(A):
        raise StaticRaise("ShapeError", "solve")
    return Vec(_solve_nodes(A, [num(x) for x in b]))


@reg("A.linalg.inv")
def _inv(it, a, kw):
    A = _mat(it, a[0])
    n = len(A)
    cols = [_solve_nodes(A, [ir.ONE if i == j else ir.ZERO for i in range(n)]) for j in range(n)]
    return Vec([Vec([cols[j][i] for j in range(n)]) for i in range(n)])


@reg("A.linalg.det")
def _det(it, a, kw):
    A = _mat(it, a[0])

    def det(M):
        if len(M) == 1:
            return M[0][0]
        return ir.add(*[ir.mul(const((-1) ** j), M[0][j], det([r[:j] + r[j + 1:] for r in M[1:]])) for j in range(len(M))])
    return det(A)


# ---- interpolation ----------------------------------------------------------
@reg("A.interp")
def _interp(it, a, kw):
    left = kw.get("left", a[3] if len(a) > 3 else None)
    right = kw.get("right", a[4] if len(a) > 4 else None)
    x, xp, fp = a[0], a[1] if len(a) > 1 else kw["xp"], a[2] if len(a) > 2 else kw["fp"]
    xp, fp = N(Vec(xp) if isinstance(xp, list) else xp), N(Vec(fp) if isinstance(fp, list) else fp)
    extra = ()
    if left is not None or right is not None:
        extra = (N(left) if left is not None else fn("py:None"), N(right) if right is not None else fn("py:None"))
    return bc(lambda v: mk("fn:interp", (num(v), xp, fp) + extra), x)


@reg("A.take")
def _take(it, a, kw):
    return it.getitem(a[0], a[1])


# ---- powers ------------------------------------------------------------------
@reg("A.power", "A.float_power", "A.pow")
def _power(it, a, kw):
    a = [Vec(x) if isinstance(x, (list, tuple)) else x for x in a]
    return it.binop("Pow", a[0], a[1])


@reg("jax.lax.integer_pow")
def _ipow(it, a, kw):
    return it.binop("Pow", a[0], a[1])


@reg("jax.lax.complex")
def _complex(it, a, kw):
    return bc(lambda x, y: ir.add(num(x), ir.mul(ir.I, num(y))), *[Vec(x) if isinstance(x, (list, tuple)) else x for x in a[:2]])


@reg("complex")
def _pycomplex(it, a, kw):
    if traced(list(a)):
        it.event("host-coercion", "complex() of a traced value", *a)
    if len(a) == 1:
        return a[0]
    return _complex(it, a, kw)


@reg("A.sincos_")
def _never(it, a, kw):
    raise Unsupported("")


@reg("jax.lax.stop_gradient")
def _sg(it, a, kw):
    it.event("stop-gradient", "")
    return bc(lambda x: fn("stopgrad", num(x)), a[0]) if isinstance(a[0], (Vec, Node)) else a[0]


for _k in ("ifft", "fft", "irfft", "rfft"):
    def _mkfft(k):
        def f(it, a, kw):
            if any(x is not None for x in a[1:3]) or kw.get("n") is not None or kw.get("axis", -1) != -1:
                return fn("opaque:" + k, to_whole(num(a[0])))
            x = to_whole(num(a[0]))
            norm = kw.get("norm", a[3] if len(a) > 3 else None)
            r = mk("fn:" + k, (x,))
            if norm in (None, "backward"):
                return r
            if k not in ("ifft", "fft") or norm not in ("ortho", "forward"):
                return fn("opaque:" + k, x)
            e = Fr(1) if norm == "forward" else Fr(1, 2)
            return ir.mul(r, ir.power(fn("len", x), e if k == "ifft" else -e))
        return f
    T["A.fft." + _k] = _mkfft(_k)


@reg("A.vectorize", "jax.numpy.vectorize")
def _vectorize(it, a, kw):
    return a[0]


# ---- jax transforms --------------------------------------------------------
def _wrapfn(f, name):
    b = Builtin(lambda args, kw: None, name)
    b.wrapped = f
    return b


@reg("jax.jit", "jax.checkpoint", "jax.remat", "jax.named_call", "jax.pmap", "jax.named_scope", "jax.block_until_ready",
     "jax.device_put", "jax.block", "jax.device_get", "jax.ensure_compile_time_eval", "functools.wraps_", "jax.jit_")
def _jit(it, a, kw):
    if not a:
        return Builtin(lambda args, k2: args[0], "jit-decorator")
    return a[0]


@reg("functools.lru_cache", "functools.cache")
def _cache(it, a, kw):
    def deco(f):
        def g(args, k2):
            # the interpreter evaluates anew; a repeated key returns the same value for pure f
            if traced(list(args) + list(k2.values())) or any(isinstance(x, (Vec, Opaque)) for x in args):
                it.event("cache-on-traced", "cached function %s is keyed on arrays" % getattr(f, "name", "?"), *args)
            return it.call(f, list(args), k2)
        b = Builtin(g, getattr(f, "name", "cached"))
        b.wrapped = f
        return b
    if a and isinstance(a[0], (Closure, Builtin)):
        return deco(a[0])
    return Builtin(lambda args, k2: deco(args[0]), "cache-decorator")


@reg("functools.wraps")
def _wraps(it, a, kw):
    return Builtin(lambda args, k2: args[0], "wraps")


@reg("contextlib.contextmanager", "abc.abstractmethod", "functools.singledispatch", "typing.overload", "typing.no_type_check",
     "typing.runtime_checkable")
def _iddec(it, a, kw):
    return a[0]


@reg("functools.partial")
def _partial(it, a, kw):
    f, pre, pk = a[0], list(a[1:]), dict(kw)
    if isinstance(f, Ext) and (f.name in ("jax.jit", "jax.custom_jvp", "jax.checkpoint", "jax.vmap") and not pre):
        def g(args, k2):
            return it.ext_call(f.name, list(args), {**pk, **k2})
        return Builtin(g, f.name)
    b = Builtin(lambda args, k2: it.call(f, pre + list(args), {**pk, **k2}), "partial")
    return b


@reg("functools.reduce")
def _reduce(it, a, kw):
    xs = it.iterate(a[1])
    acc = a[2] if len(a) > 2 else xs.pop(0)
    for x in xs:
        acc = it.call(a[0], [acc, x], {})
    return acc


def _axes(it, in_axes, n):
    if isinstance(in_axes, (tuple, list)):
        return list(in_axes)
    return [in_axes] * n


@reg("jax.vmap")
def _vmap(it, a, kw):
    f = a[0]
    in_axes = kw.get("in_axes", a[1] if len(a) > 1 else 0)
    out_axes = kw.get("out_axes", a[2] if len(a) > 2 else 0)

    def g(args, k2):
        ax = _axes(it, in_axes, len(args))
        mapped = [x for x, i in zip(args, ax) if i is not None]
        ns = [_lead(it, x) for x in mapped if _lead(it, x) is not None]
        if not ns:
            # mapping over grid axes: the elementwise value is mapped as is
            return it.call(f, args, k2)
        n = max(ns)
        outs = []
        for i in range(n):
            aa = []
            for x, q in zip(args, ax):
                if q is None or _lead(it, x) is None:
                    aa.append(x)
                elif static_int(q) == 0:
                    aa.append(_slice0(it, x, i))
                else:
                    aa.append(_slice0(it, it.transpose(x), i))
            outs.append(it.call(f, aa, k2))
        r = _stackout(it, outs)
        if static_int(out_axes) in (1, -1) and isinstance(r, Vec) and isinstance(r.items[0], Vec):
            r = it.transpose(r)
        return r
    return Builtin(g, "vmap")


def _fresh_like(it, x, table):
    if isinstance(x, Vec):
        return Vec([_fresh_like(it, i, table) for i in x.items])
    if isinstance(x, (tuple, list)):
        return type(x)(_fresh_like(it, i, table) for i in x)
    n = num(x)
    s = it.fresh("d")
    gs = [g for g in I_.GRIDS if g in ir.deps(n)]
    if gs:
        I_.GRIDS.add(s.args[0])
    table.append((s, n))
    return s


def _mapstruct(it, x, f):
    if isinstance(x, Vec):
        return Vec([_mapstruct(it, i, f) for i in x.items])
    if isinstance(x, (tuple, list)):
        return type(x)(_mapstruct(it, i, f) for i in x)
    if x is None or isinstance(x, (str, dict, Closure, Ext)):
        return x
    return f(num(x))


def _flat(x):
    if isinstance(x, Vec):
        return [j for i in x.items for j in _flat(i)]
    if isinstance(x, (tuple, list)):
        return [j for i in x for j in _flat(i)]
    return [x]


def _custom_target(f):
    return f


def _resub(it, n, table):
    m = {}
    for s, v in table:
        m[s] = v
        w = ir.sym("@" + s.args[0])
        m[w] = to_whole(v)
    return ir.subst(n, m)


def _grad_of(it, f, argnums, has_aux, args, kw):
    """value, {arg index: derivative structure}, aux"""
    nums = argnums if isinstance(argnums, (tuple, list)) else (argnums,)
    nums = [static_int(i) for i in nums]
    table = {}
    args = list(args)
    tabs = []
    for i in nums:
        t = []
        args[i] = _fresh_like(it, args[i], t)
        tabs.append((i, t))
    out = it.call(f, args, kw)
    aux = None
    if has_aux:
        out, aux = it.iterate(out, hint=2)
    y = num(out)
    allt = [p for _, t in tabs for p in t]
    grads = []
    for i, t in tabs:
        order = {id(s): s for s, _ in t}
        grads.append(_mapstruct(it, args[i], lambda s: _resub(it, ir.diff(y, s), allt)))
    val = _resub(it, y, allt)
    if aux is not None:
        aux = _mapstruct(it, aux, lambda n: _resub(it, n, allt))
    g = tuple(grads) if isinstance(argnums, (tuple, list)) else grads[0]
    return val, g, aux


@reg("jax.grad", "jax.jacfwd", "jax.jacrev", "jax.jacobian")
def _grad(it, a, kw):
    f = a[0]
    argnums = kw.get("argnums", a[1] if len(a) > 1 else 0)
    has_aux = kw.get("has_aux", False)

    def g(args, k2):
        v, gr, aux = _grad_of(it, f, argnums, has_aux, args, k2)
        return (gr, aux) if has_aux else gr
    return Builtin(g, "grad")


@reg("jax.value_and_grad")
def _vag(it, a, kw):
    f = a[0]
    argnums = kw.get("argnums", a[1] if len(a) > 1 else 0)
    has_aux = kw.get("has_aux", False)

    def g(args, k2):
        v, gr, aux = _grad_of(it, f, argnums, has_aux, args, k2)
        return ((v, aux), gr) if has_aux else (v, gr)
    return Builtin(g, "value_and_grad")


@reg("jax.hessian")
def _hess(it, a, kw):
    return _grad(it, [_grad(it, a, kw)], kw)


@reg("jax.jvp")
def _jvp(it, a, kw):
    f, prim, tan = a[0], it.iterate(a[1]), it.iterate(a[2])
    table = []
    args = [_fresh_like(it, p, table) for p in prim]
    out = it.call(f, args, {})
    tans = [num(t) for t in _flat(Vec(tan))]

    def dn(n):
        acc = ir.ZERO
        for (s, _), t in zip(table, tans):
            acc = ir.add(acc, ir.mul(_resub(it, ir.diff(n, s), table), t))
        return acc
    return _mapstruct(it, out, lambda n: _resub(it, n, table)), _mapstruct(it, out, dn)


@reg("jax.custom_jvp", "jax.custom_vjp", "jax.custom_gradient")
def _cjvp(it, a, kw):
    if not a:
        return Builtin(lambda args, k2: _cjvp(it, args, kw), "custom_jvp-decorator")
    return a[0]


@reg("jax.tree_util.tree_map", "jax.tree.map", "jax.tree_map")
def _treemap(it, a, kw):
    f = a[0]

    def rec(*xs):
        if isinstance(xs[0], dict):
            return {k: rec(*[x[k] for x in xs]) for k in xs[0]}
        if isinstance(xs[0], (tuple, list)):
            return type(xs[0])(rec(*q) for q in zip(*xs))
        return it.call(f, list(xs), {})
    return rec(*a[1:])


@reg("jax.config.update")
def _cfg(it, a, kw):
    it.event("config-update", "%r" % (a[0],))
    return None


@reg("jax.random.uniform", "jax.random.normal", "jax.random.split", "jax.random.PRNGKey", "jax.random.key",
     "jax.random.fold_in", "jax.random.beta", "jax.random.choice")
def _rand(it, a, kw):
    return None


for _k in ("uniform", "normal", "split", "PRNGKey", "key", "fold_in", "choice", "beta", "exponential", "permutation"):
    def _mkr(k):
        def f(it, a, kw):
            names = {"uniform": ("key", "shape", "dtype", "minval", "maxval"), "split": ("key", "num")}.get(k, ("key", "shape"))
            d = dict(zip(names, a))
            d.update(kw)
            it.event("random", "%s(%s)" % (k, ",".join(sorted(d))))
            return it_random(it, k, d)
        return f
    T["jax.random." + _k] = _mkr(_k)


def it_random(it, k, d):
    key = N(d.get("key", 0))
    if k == "split":
        n = static_int(d.get("num", 2))
        return Vec([fn("random:split", key, const(i)) for i in range(n or 2)])
    shape = d.get("shape", ())
    dims = it.iterate(shape) if isinstance(shape, (tuple, list, Vec)) else [shape]
    lo, hi = d.get("minval", 0), d.get("maxval", 1)
    # trailing static axes are enumerated; the leading symbolic axis is elementwise
    stat = [static_int(x) for x in dims]

    def draw(ix):
        return mk("fn:random:" + k, (key,) + tuple(N(x) for x in dims) + tuple(const(i) for i in ix))

    def pick(v, ix):
        v = Vec(v) if isinstance(v, (list, tuple)) else v
        if isinstance(v, Vec):
            return num(v.items[ix[-1]]) if ix else num(v.items[0])
        return num(v)

    def build(ds, ix):
        if not ds:
            u = draw(ix)
            if k != "uniform":
                return u
            a, b = pick(lo, ix), pick(hi, ix)
            return ir.add(a, ir.mul(ir.sub(b, a), u))
        if ds[0] is None:
            return build(ds[1:], ix)
        return Vec([build(ds[1:], ix + [i]) for i in range(ds[0])])
    v = build(stat, [])
    r = RandArr(v.items, None) if isinstance(v, Vec) else v
    if isinstance(r, Vec):
        r.lead = sum(1 for x in stat if x is None)
    return r


class RandArr(Vec):
    """Vec whose leading symbolic axis is implicit; items enumerate the last axis"""
    lead = 0


# ---- builtins ------------------------------------------------------------------
@reg("len")
def _len(it, a, kw):
    x = a[0]
    if isinstance(x, (Vec, list, tuple, dict, set, str, range)):
        return len(x)
    if isinstance(x, Instance):
        return len(it.iterate(x))
    n = N(x)
    return fn("len", to_whole(n))


@reg("range")
def _range(it, a, kw):
    v = [static_int(x) for x in a]
    if any(x is None for x in v):
        raise Unsupported("symbolic range")
    return range(*v)


@reg("enumerate")
def _enum(it, a, kw):
    s = static_int(a[1] if len(a) > 1 else kw.get("start", 0))
    return [(i + s, x) for i, x in enumerate(it.iterate(a[0]))]


@reg("zip")
def _zip(it, a, kw):
    return [tuple(x) for x in zip(*[it.iterate(q) for q in a])]


@reg("map")
def _map(it, a, kw):
    return [it.call(a[0], list(x), {}) for x in zip(*[it.iterate(q) for q in a[1:]])]


@reg("filter")
def _filter(it, a, kw):
    out = []
    for x in it.iterate(a[1]):
        b = B(x if a[0] is None else it.call(a[0], [x], {}))
        if b is not ir.FALSE:
            out.append(x)
    return out


@reg("sum")
def _bsum(it, a, kw):
    acc = a[1] if len(a) > 1 else kw.get("start", 0)
    if isinstance(a[0], Node):
        return it.sum_(a[0])
    for x in it.iterate(a[0]):
        acc = it.binop("Add", acc, x)
    return acc


@reg("abs")
def _babs(it, a, kw):
    return elementwise(_abs)(it, a, kw)


def _bminmax(it, a, f, tag):
    xs = list(a) if len(a) > 1 else it.iterate(a[0])
    if any(traced(x) for x in xs):
        it.event("traced-branch", "builtin %s() on a traced value" % tag, *xs)
    acc = xs[0]
    for x in xs[1:]:
        if isinstance(acc, int) and isinstance(x, int):
            acc = min(acc, x) if tag == "min" else max(acc, x)
        else:
            acc = f(num(acc), num(x))
    return acc


@reg("max")
def _bmax(it, a, kw):
    return _bminmax(it, a, ir.maximum, "max")


@reg("min")
def _bmin(it, a, kw):
    return _bminmax(it, a, ir.minimum, "min")


@reg("float")
def _float(it, a, kw):
    if not a:
        return ir.ZERO
    x = a[0]
    if isinstance(x, str):
        if x.lower() in ("inf", "+inf", "infinity"):
            return ir.INF
        if x.lower() == "nan":
            return ir.NAN
        return I_.float_node(x)
    if traced(x):
        it.event("host-coercion", "float() of a traced value", x)
    return num(x)


@reg("int")
def _int(it, a, kw):
    x = a[0]
    if isinstance(x, (int, str)):
        return int(x)
    if traced(x):
        it.event("host-coercion", "int() of a traced value", x)
    n = _toint(num(x))
    i = static_int(n)
    return i if i is not None else n


@reg("bool")
def _bool(it, a, kw):
    b = B(a[0])
    if b is ir.TRUE:
        return True
    if b is ir.FALSE:
        return False
    it.event("host-coercion", "bool() of a traced value", b)
    return b


@reg("round")
def _round(it, a, kw):
    if traced(a[0]):
        it.event("host-coercion", "round() of a traced value", a[0])
    return fn("round", *[num(x) for x in a])


T["A.round"] = T["A.around"] = elementwise(lambda *x: fn("round", *x))


@reg("str", "repr", "format")
def _str(it, a, kw):
    if a and isinstance(a[0], Opaque):
        return a[0]                 # a path
    return a[0] if a and isinstance(a[0], str) else str(a[0]) if a and isinstance(a[0], int) else "<str>"


@reg("list")
def _list(it, a, kw):
    return list(it.iterate(a[0])) if a else []


@reg("tuple")
def _tuple(it, a, kw):
    return tuple(it.iterate(a[0])) if a else ()


@reg("dict")
def _dict(it, a, kw):
    d = {}
    if a:
        d.update(a[0] if isinstance(a[0], dict) else {hk(k): v for k, v in [it.iterate(p) for p in it.iterate(a[0])]})
    d.update(kw)
    return d


@reg("set", "frozenset")
def _set(it, a, kw):
    return set(hk(x) for x in it.iterate(a[0])) if a else set()


@reg("sorted")
def _sorted(it, a, kw):
    xs = it.iterate(a[0])
    if all(isinstance(x, (int, str)) for x in xs):
        return sorted(xs, reverse=bool(kw.get("reverse")))
    raise Unsupported("sorted")


@reg("reversed")
def _rev(it, a, kw):
    return list(it.iterate(a[0]))[::-1]


@reg("iter")
def _iter(it, a, kw):
    return a[0] if isinstance(a[0], I_.PyIter) else I_.PyIter(it.iterate(a[0]))


@reg("next")
def _next(it, a, kw):
    x = a[0] if isinstance(a[0], I_.PyIter) else it.iterate(a[0])
    if x:
        return x.pop(0) if isinstance(x, I_.PyIter) else x[0]
    if len(a) > 1:
        return a[1]
    raise StaticRaise("StopIteration")


@reg("any")
def _bany(it, a, kw):
    return _allany(it, Vec(it.iterate(a[0])) if not isinstance(a[0], Node) else a[0], False)


@reg("all")
def _ball(it, a, kw):
    return _allany(it, Vec(it.iterate(a[0])) if not isinstance(a[0], Node) else a[0], True)


@reg("print")
def _print(it, a, kw):
    it.event("print", "")
    return None


@reg("isinstance")
def _isinst(it, a, kw):
    x, ts = a
    ts = list(ts) if isinstance(ts, (tuple, list)) else [ts]
    for t in ts:
        n = t.name if isinstance(t, (Ext, ClassVal)) else None
        if isinstance(t, ClassVal):
            c = x.cls if isinstance(x, Instance) else None
            while c is not None:
                if c is t:
                    return True
                c = next((b for b in c.bases if isinstance(b, ClassVal)), None)
            continue
        if n == "str" and isinstance(x, str):
            return True
        if n == "bool" and isinstance(x, bool):
            return True
        if n == "int" and isinstance(x, int):
            return True
        if n == "float" and (isinstance(x, float) or (isinstance(x, Node) and not ir.deps(x))):
            return True
        if n in ("list", "tuple", "dict", "set") and isinstance(x, {"list": list, "tuple": tuple, "dict": dict, "set": set}[n]):
            return True
        if n and n.split(".")[-1] in ("ndarray", "Array", "ArrayLike", "Tracer") and isinstance(x, (Vec, Node)) and (
                isinstance(x, Vec) or ir.deps(x)):
            return True
        if n == "object":
            return True
    return False


@reg("callable")
def _callable(it, a, kw):
    return isinstance(a[0], (Closure, Builtin, Ext, ClassVal))


@reg("getattr")
def _getattr(it, a, kw):
    try:
        return it.attr(a[0], a[1])
    except (StaticRaise, Unsupported):
        if len(a) > 2:
            return a[2]
        raise


@reg("hasattr")
def _hasattr(it, a, kw):
    if isinstance(a[0], Ext):
        return True
    try:
        it.attr(a[0], a[1])
        return True
    except (StaticRaise, Unsupported):
        return False


@reg("setattr")
def _setattr(it, a, kw):
    it.setattr(a[0], a[1], a[2])


@reg("type")
def _type(it, a, kw):
    return a[0].cls if isinstance(a[0], Instance) else Ext("type:" + type(a[0]).__name__)


@reg("pow")
def _bpow(it, a, kw):
    return it.binop("Pow", a[0], a[1])


@reg("divmod")
def _divmod(it, a, kw):
    return (it.binop("FloorDiv", a[0], a[1]), it.binop("Mod", a[0], a[1]))


@reg("super")
def _super(it, a, kw):
    return Opaque("super")


@reg("id", "hash")
def _id(it, a, kw):
    it.event("identity", "id()/hash()")
    return Opaque("id")


@reg("globals", "locals", "vars")
def _globals(it, a, kw):
    it.event("reflection", "globals()/locals()")
    return Opaque("globals")


@reg("eval", "exec", "__import__", "input")
def _eval(it, a, kw):
    it.event("reflection", "eval/exec")
    return Opaque("eval")


@reg("open")
def _open(it, a, kw):
    it.event("io", "open()")
    return Opaque("file", fn("file", *[N(x) for x in a[:1]]))


@reg("dataclasses.dataclass", "jax.tree_util.register_pytree_node_class", "jax.tree_util.register_dataclass",
     "flax.struct.dataclass")
def _dc(it, a, kw):
    if a and isinstance(a[0], (ClassVal,)):
        return a[0]
    return Builtin(lambda args, k2: args[0], "dataclasses.dataclass")


@reg("dataclasses.field")
def _field(it, a, kw):
    if "default" in kw:
        return kw["default"]
    if "default_factory" in kw:
        return it.call(kw["default_factory"], [], {})
    return I_.NORET


@reg("collections.namedtuple", "typing.NamedTuple")
def _nt(it, a, kw):
    names = a[1].replace(",", " ").split() if isinstance(a[1], str) else [x if isinstance(x, str) else x[0] for x in a[1]]
    c = ClassVal(a[0], [], {}, None, None)
    c.fields = [(n, I_.NORET) for n in names]
    c.tuple_like = True
    return c


@reg("collections.OrderedDict")
def _od(it, a, kw):
    return _dict(it, a, kw)


@reg("itertools.chain")
def _chain(it, a, kw):
    return [x for q in a for x in it.iterate(q)]


@reg("itertools.product")
def _iprod(it, a, kw):
    import itertools
    return [tuple(x) for x in itertools.product(*[it.iterate(q) for q in a])]


@reg("itertools.accumulate")
def _acc(it, a, kw):
    out, acc = [], None
    for x in it.iterate(a[0]):
        acc = x if acc is None else (it.call(a[1], [acc, x], {}) if len(a) > 1 else it.binop("Add", acc, x))
        out.append(acc)
    return out


# ---- host-side data loading --------------------------------------------------
@reg("numpy.loadtxt", "numpy.genfromtxt")
def _loadtxt(it, a, kw):
    it.event("io-read", "loadtxt")
    names = ("fname", "dtype", "comments", "delimiter", "converters", "skiprows", "usecols", "unpack", "ndmin", "encoding", "max_rows")
    kw = dict(zip(names, a), **kw)
    unpack = kw.pop("unpack", False)
    if unpack not in (True, False):
        raise Unsupported("loadtxt(unpack=...)")
    path = kw.pop("fname")
    keep = [fn("py:%s=%r" % (k, v)) for k, v in sorted(kw.items()) if k not in ("dtype", "encoding", "ndmin") and v is not None]
    return HostTable(fn("loadtxt", N(path), *keep), unpack)


class HostTable(Opaque):
    """a text table; item(loadtxt, i) is its column i whether or not it was read transposed"""

    def __init__(self, node, columns):
        Opaque.__init__(self, "loadtxt", node)
        self.columns = columns

    def get(self, k):
        full = lambda x: x is Ellipsis or isinstance(x, slice) and x == slice(None)
        key = k if isinstance(k, tuple) else (k,)
        if not self.columns and len(key) == 2 and (full(key[0]) or isinstance(key[0], slice)):
            key = key[::-1]
        elif not self.columns:
            raise Unsupported("a row of a table")
        i = static_int(key[0])
        if i is None or len(key) > 2:
            raise Unsupported("this part of a table")
        c = fn("item", self.node, const(i))
        if len(key) == 2 and not full(key[1]):
            if isinstance(key[1], slice):
                return fn("item", c, fn("py:" + repr(key[1])))
            return fn("item", c, N(key[1]))
        return c


@reg("scipy.interpolate.CubicSpline", "scipy.interpolate.interp1d", "scipy.interpolate.PchipInterpolator")
def _cs(it, a, kw):
    xs = N(Vec(a[0]) if isinstance(a[0], list) else a[0])
    ys = N(Vec(a[1]) if isinstance(a[1], list) else a[1])
    extra = tuple(fn("py:%s=%r" % (k, kw[k] if not isinstance(kw[k], Node) else ir.show(kw[k]))) for k in sorted(kw))

    def g(args, k2):
        return mk("fn:spline", (N(args[0]), xs, ys) + extra + tuple(N(x) for x in args[1:]))
    return Builtin(g, "CubicSpline")


# ---- whole numbers ---------------------------------------------------------
def _integer(name):
    import math
    exact = getattr(math, name)

    def f(it, a, kw):
        v = [static_int(x) for x in a]
        if kw or any(x is None for x in v):
            raise Unsupported("math.%s of a value that is not known" % name)
        try:
            return exact(*v)
        except ValueError as e:
            raise StaticRaise("ValueError", str(e))
    return f


for _n in ("comb", "perm", "factorial", "gcd", "lcm", "isqrt"):
    reg("math." + _n)(_integer(_n))
for _n in ("comb", "factorial"):
    reg("scipy.special." + _n, "jax.scipy.special." + _n)(_integer(_n))
