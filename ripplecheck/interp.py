"""Lowering of the analysed Python modules to value graphs (ir.py).

An abstract interpreter over the AST: calls are inlined through the resolved
program (imports, closures, classes, containers), loops with static bounds are
unrolled, data dependent branches become joins.  The analysed package is never
imported.  Anything unknown becomes an opaque function node, so that analysis
stays total.
"""
import ast
import math
import os
from fractions import Fraction as Fr
from . import ir
from .ir import Node, const, fn, mk

SRC = "/repo/src"


class Unsupported(Exception):
    pass


class StaticRaise(Exception):
    """A definite `raise` in the analysed code."""

    def __init__(self, kind, msg=""):
        Exception.__init__(self, kind, msg)
        self.kind = kind


class Ext:
    """External object known by dotted name."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<ext %s>" % self.name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Opaque:
    def __init__(self, tag, node=None):
        self.tag = tag
        self.node = node

    def __repr__(self):
        return "<opaque %s>" % self.tag


class Vec:
    """Array with statically known leading dimension."""

    def __init__(self, items, owner=None, host=False):
        self.items = list(items)
        self.owner = owner
        self.host = host            # a host (numpy) array: a traced index into it fails under jit

    def __len__(self):
        return len(self.items)

    def __repr__(self):
        return "Vec%r" % (self.items,)


class Closure:
    def __init__(self, node, env, mod, name, defaults, kwdefaults, owner=None):
        self.node, self.env, self.mod, self.name = node, env, mod, name
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.attrs = {}
        self.jit = False

    def __repr__(self):
        return "<func %s.%s>" % (self.mod.name, self.name)


class Builtin:
    def __init__(self, f, name="builtin", attrs=None):
        self.f, self.name = f, name
        self.attrs = attrs or {}


class ClassVal:
    def __init__(self, name, bases, ns, mod, node):
        self.name, self.bases, self.ns, self.mod, self.node = name, bases, ns, mod, node
        self.fields = None

    def lookup(self, a):
        if a in self.ns:
            return self.ns[a]
        for b in self.bases:
            if isinstance(b, ClassVal):
                r = b.lookup(a)
                if r is not None:
                    return r
        return None


class Instance:
    def __init__(self, cls):
        self.cls = cls
        self.d = {}


class Poison:
    """what a module-level name stands for when the statement that binds it is outside the modelled language"""
    def __init__(self, why):
        self.why = why


class MVars(dict):
    """names of a module"""
    def __getitem__(self, k):
        v = dict.__getitem__(self, k)
        if type(v) is Poison:
            raise Unsupported(v.why)
        return v

    def get(self, k, d=None):
        return self[k] if k in self else d


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.env = Env(None, self)
        self.env.vars = MVars()
        self.tree = None
        self.done = False


class Env:
    def __init__(self, parent, mod, fname="<module>"):
        self.vars = {}
        self.parent = parent
        self.mod = mod
        self.fname = fname
        self.globals_ = set()
        self.nonlocals = set()
        self.on_global = self.on_nonlocal = None

    def get(self, k):
        e = self
        while e is not None:
            if k in e.vars:
                return e.vars[k]
            e = e.parent
        raise KeyError(k)

    def set(self, k, v):
        if k in self.globals_:
            self.mod.env.vars[k] = v
            if self.on_global:
                self.on_global(k)
            return
        if k in self.nonlocals:
            e = self.parent
            while e is not None:
                if k in e.vars:
                    e.vars[k] = v
                    if self.on_nonlocal:
                        self.on_nonlocal(e, k)
                    return
                e = e.parent
        self.vars[k] = v

    def copy(self):
        n = Env(self.parent, self.mod, self.fname)
        n.vars = dict(self.vars)
        n.globals_, n.nonlocals = self.globals_, self.nonlocals
        n.on_global, n.on_nonlocal = self.on_global, self.on_nonlocal
        return n


class NoReturn:
    pass


class PyIter(list):
    """the values an iterator has left; next() takes them one by one"""


YIELDS = "(yielded values)"
NORET = NoReturn()
BREAK = NoReturn()
CONT = NoReturn()
BOTTOM = NoReturn()       # path ends in raise

# ---- named constants -----------------------------------------------------
PI = ir.cst("PI")
G_, C_, MSUN_ = ir.cst("G"), ir.cst("C"), ir.cst("MSUN")
MPC_ = ir.cst("MPC")
EG_ = ir.cst("EULERGAMMA")
GT_ = ir.mul(G_, MSUN_, ir.power(C_, -3))
MR_ = ir.mul(G_, MSUN_, ir.power(C_, -2))
REF = {  # reference values (CODATA 2018 / IAU 2015 nominal / IAU parsec)
    "PI": Fr("3.141592653589793238462643383279502884"),
    "C": Fr("299792458"),
    "G": Fr("6.67430e-11"),
    "MSUN": Fr("1.988409902147041637325262574352366540e30"),
    "MPC": Fr("3.085677581491367278913937957796471611e22"),
    "EULERGAMMA": Fr("0.577215664901532860606512090082402431"),
}
MRREF = Fr("1.476625038050124729627979840144936351e3")
GTREF = REF["G"] * REF["MSUN"] / REF["C"] ** 3
_NAMED = [
    (REF["PI"], PI), (2 * REF["PI"], ir.scale(PI, Fr(2))), (REF["PI"] / 2, ir.scale(PI, Fr(1, 2))),
    (REF["PI"] / 4, ir.scale(PI, Fr(1, 4))), (4 * REF["PI"], ir.scale(PI, Fr(4))),
    (REF["C"], C_), (REF["G"], G_), (REF["MSUN"], MSUN_), (MRREF, MR_), (REF["MPC"], MPC_),
    (REF["EULERGAMMA"], EG_), (GTREF, GT_), (MRREF / REF["C"], GT_),
]
_NAMEDF = {}
for _v, _n in _NAMED:
    _NAMEDF.setdefault(float(_v), _n)


def float_node(text):
    t = text.replace("_", "")
    v = float(t)
    if v in _NAMEDF:
        return _NAMEDF[v]
    if v != 0 and -v in _NAMEDF:
        return ir.neg(_NAMEDF[-v])
    fr = Fr(t)
    digits = t.lower().split("e")[0].replace(".", "").replace("-", "").strip("0")
    if len(digits) >= 14:
        for a, n in _NAMED:
            if abs(fr - a) <= abs(a) * Fr(1, 10 ** 14):
                return n
        s = fr.limit_denominator(2000)
        if float(s) == v or abs(s - fr) <= abs(fr) * Fr(1, 5 * 10 ** 15):
            return const(s)
    return const(fr)


def is_num(x):
    return isinstance(x, (Node, int, float, bool)) and not isinstance(x, str)


def N(x):
    """numeric python/Node value -> Node"""
    if isinstance(x, Node):
        return x
    if isinstance(x, bool):
        return ir.ONE if x else ir.ZERO
    if isinstance(x, int):
        return const(x)
    if isinstance(x, float):
        if x == math.inf:
            return ir.INF
        if x != x:
            return ir.NAN
        return float_node(repr(x))
    if isinstance(x, Opaque):
        return x.node if x.node is not None else fn("opaque:" + str(x.tag))
    if isinstance(x, Vec) and len(x) == 1:
        return N(x.items[0])
    if isinstance(x, (Vec, list, tuple)):
        return vecnode(x)
    if isinstance(x, Ext):
        return fn("ext:" + x.name)
    if isinstance(x, (Closure, Builtin, ClassVal, Instance, Module)) or x is None or isinstance(x, (str, dict, slice)):
        return fn("py:" + _pyname(x))
    raise Unsupported("not numeric: %r" % (x,))


def _pyname(x):
    if isinstance(x, (Closure, Builtin, ClassVal, Module)):
        return "fn_" + x.name
    if isinstance(x, Instance):
        return "inst_" + x.cls.name
    return repr(x)


def vecnode(v):
    items = v.items if isinstance(v, Vec) else v
    return mk("fn:vec", tuple(N(x) for x in items))


def num(x):
    """as arithmetic node: booleans become 0/1"""
    n = N(x)
    if ir.is_bool(n):
        return ir.where(n, ir.ONE, ir.ZERO)
    return n


def B(x):
    """as boolean node"""
    if isinstance(x, Node):
        if ir.is_bool(x):
            return x
        if x.op == "const":
            return ir.TRUE if x.args[0] != 0 else ir.FALSE
        if x.op == "where" and x.args[1] is ir.ONE and x.args[2] is ir.ZERO:
            return x.args[0]
        if x.op == "where" and x.args[2] is ir.ONE and x.args[1] is ir.ZERO:
            return ir.not_(x.args[0])
        if x in (ir.INF, ir.NAN, PI):
            return ir.TRUE
        return ir.not_(ir.eq(x, ir.ZERO))
    if x is None:
        return ir.FALSE
    if isinstance(x, (bool, int, float)):
        return ir.TRUE if x else ir.FALSE
    if isinstance(x, (str, tuple, list, dict, set, range)):
        return ir.TRUE if len(x) else ir.FALSE
    if isinstance(x, Vec):
        return ir.TRUE if len(x) else ir.FALSE
    if isinstance(x, Opaque):
        return fn("boolext", N(x))
    return ir.TRUE


def static_int(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Node) and x.op == "const" and x.args[0].denominator == 1:
        return int(x.args[0])
    if isinstance(x, Vec) and len(x) == 1:
        return static_int(x.items[0])
    return None


def is_arr(x):
    return isinstance(x, Vec)


def bc(f, *xs):
    """broadcast f over Vec arguments"""
    vs = [x for x in xs if isinstance(x, (Vec,))]
    if not vs:
        return f(*xs)
    # length-1 vector against an elementwise grid value: the grid wins
    if all(len(v) == 1 and not isinstance(v.items[0], Vec) for v in vs) and any(
        isinstance(x, Node) and has_grid(x) for x in xs
    ):
        return f(*[x.items[0] if isinstance(x, Vec) else x for x in xs])

    def rank(v):
        r = 0
        while isinstance(v, Vec):
            r += 1
            v = v.items[0] if v.items else None
        return r

    R = max(rank(v) for v in vs)
    top = [v for v in vs if rank(v) == R]
    n = max(len(v) for v in top)
    out = []
    for i in range(n):
        a = []
        for x in xs:
            if isinstance(x, Vec) and rank(x) == R:
                if len(x) not in (1, n):
                    raise StaticRaise("ShapeError", "incompatible shapes")
                a.append(x.items[i if len(x) > 1 else 0])
            else:
                a.append(x)
        out.append(bc(f, *a))
    return Vec(out)


GRIDS = set()          # names of elementwise grid symbols


def static_extent(n):
    """depends on the shapes of its arguments only"""
    return all(x.op != "sym" or x.args[0].startswith("$") for x in ext_topo(n))


def ext_topo(n):
    out, st = [], [n]
    while st:
        x = st.pop()
        out.append(x)
        if x.op not in ("fn:len", "fn:shape"):
            st += [y for y in ir.children(x)]
    return out


def has_grid(n):
    return isinstance(n, Node) and not GRIDS.isdisjoint(ir.deps(n))


ARRAYS = {"fn:concat", "fn:ifft", "fn:fft", "fn:rfft", "fn:irfft", "fn:cumsum", "fn:gradient", "fn:linspace", "fn:arange", "fn:filled"}
REDUCE = {"fn:sum", "fn:max", "fn:min", "fn:argmin", "fn:argmax", "fn:gather", "fn:len", "fn:prod", "fn:mean", "fn:item", "fn:trapz", "fn:shape"}


def arraylike(n):
    """an array made of the whole grid (padded, transformed, accumulated) that no reduction has consumed"""
    seen, todo = set(), [n]
    while todo:
        x = todo.pop()
        if x in seen or x.op in REDUCE:
            continue
        seen.add(x)
        if x.op in ARRAYS:
            return True
        if len(seen) > 200:
            return False
        todo += [y for y in ir.children(x)]
    return False


def to_whole(n):
    """grid symbol -> whole-array symbol, used inside gather/reductions"""
    m = {ir.sym(g): ir.sym("@" + g) for g in GRIDS if g in ir.deps(n)}
    return ir.subst(n, m) if m else n


class Interp:
    def __init__(self, src=None):
        self.src = src or SRC
        self.modules = {}
        self.poisoned = []
        self.events = []
        self.calls = set()
        self.callstack = []
        self.nfresh = 0
        self.caller_owned = {}
        self.in_main = False
        self.frames = 0
        self.module_effects = []
        self.shared = {}
        self.condnodes = set()
        self.custom_jvp = {}

    # ---- bookkeeping ----
    def event(self, kind, detail="", *on):
        """on: the traced values that cause the event"""
        loc = ir.CUR[0]
        dep = set()
        for x in on:
            for y in (x.items if isinstance(x, Vec) else x if isinstance(x, (list, tuple)) else [x]):
                try:
                    dep |= ir.deps(N(y))
                except Exception:
                    pass
        e = (kind, loc, detail, frozenset(dep))
        if e not in self.events:
            self.events.append(e)

    def fresh(self, base="t"):
        self.nfresh += 1
        return ir.sym("%s#%d" % (base, self.nfresh))

    # ---- modules ----
    def find(self, name):
        p = os.path.join(self.src, *name.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.exists(p + ".py"):
            return p + ".py", False
        if os.path.isdir(p):
            return None, True
        return None, None

    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        path, ispkg = self.find(name)
        if path is None:
            if ispkg and name.split(".")[0] == "ripplegw":
                m = Module(name, None)
                m.done = True
                self.modules[name] = m
                return m
            return None
        par = self.module(name.rsplit(".", 1)[0]) if "." in name else None
        if name in self.modules:        # the package imported it on its way
            return self.modules[name]
        m = Module(name, path)
        m.ispkg = ispkg
        self.modules[name] = m
        if par is not None:
            par.env.vars[name.rsplit(".", 1)[1]] = m
        with open(path) as fh:
            m.tree = ast.parse(fh.read(), path)
        m.env.vars["__name__"] = name
        m.env.vars["__file__"] = path
        keep = ir.CUR[0]
        cs, self.callstack = self.callstack, []
        for st in m.tree.body:
            try:
                self.block([st], m.env)
            except Unsupported as e:
                self.poison(m, st, "%s, while lowering the package at %s" % (e, ir.CUR[0]))
        self.callstack = cs
        ir.CUR[0] = keep
        m.done = True
        return m

    def poison(self, m, st, why):
        """a module-level statement could not be interpreted: the names it binds, and the containers it mentions, are unknown"""
        self.poisoned.append((m.path or m.name, getattr(st, "lineno", 0), why))
        names = set()

        def rec(n, top):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                if top:
                    names.add(n.name)
                    if n is not st:
                        return
                    for x in n.decorator_list:
                        rec(x, False)
                return
            if isinstance(n, ast.Lambda):
                return
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                names.update((a.asname or a.name).split(".")[0] for a in n.names)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                names.add(n.name)
            elif isinstance(n, ast.Name):
                v = dict.get(m.env.vars, n.id)
                if isinstance(n.ctx, ast.Store) or isinstance(v, (list, dict, set, Instance)):
                    names.add(n.id)
            for x in ast.iter_child_nodes(n):
                rec(x, top)
        rec(st, True)
        for k in names:
            m.env.vars[k] = Poison(why)

    def getattr_mod(self, dotted):
        """resolve ripplegw.a.b.NAME"""
        mod, _, attr = dotted.rpartition(".")
        m = self.module(mod)
        if m is None or attr not in m.env.vars:
            raise KeyError(dotted)
        return m.env.vars[attr]

    def imp(self, name):
        m = self.module(name) if name.split(".")[0] == "ripplegw" else None
        if m is None:
            return Ext(canon_ext(name))
        return m

    # ---- statements ----
    def block(self, stmts, env):
        for i, s in enumerate(stmts):
            self.setloc(s, env)
            r = self.stmt(s, env, stmts[i + 1:])
            if isinstance(r, tuple) and r and r[0] == "DONE":
                return r[1]
            if r is not NORET:
                return r
        return NORET

    def setloc(self, n, env):
        ln = getattr(n, "lineno", None)
        if ln is not None:
            p = env.mod.path or ""
            ir.CUR[0] = (p.replace("/repo/", ""), ln, env.fname)

    def stmt(self, s, env, rest):
        t = type(s).__name__
        m = getattr(self, "s_" + t, None)
        if m is None:
            raise Unsupported("statement " + t)
        return m(s, env, rest)

    def s_Expr(self, s, env, rest):
        if isinstance(s.value, ast.Constant):
            return NORET
        self.ev(s.value, env)
        return NORET

    def s_Pass(self, s, env, rest):
        return NORET

    def s_Assert(self, s, env, rest):
        v = self.ev(s.test, env)
        b = B(v)
        if not (b is ir.TRUE or b is ir.FALSE):
            self.event("traced-branch", "assert on a traced value", b)
        return NORET

    def s_Global(self, s, env, rest):
        env.globals_.update(s.names)
        if self.callstack:
            env.on_global = lambda k: self.event("global-mutation", "assignment to global %s" % k)
        return NORET

    def s_Nonlocal(self, s, env, rest):
        env.nonlocals.update(s.names)
        env.on_nonlocal = lambda e, k: self.event("nonlocal-mutation", "assignment to captured %s" % k) if id(e) in self.shared else None
        return NORET

    def s_Return(self, s, env, rest):
        return ("RET", self.ev(s.value, env) if s.value else None)

    def s_Break(self, s, env, rest):
        return BREAK

    def s_Continue(self, s, env, rest):
        return CONT

    def s_Raise(self, s, env, rest):
        kind = "Exception"
        if s.exc is not None:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            kind = ast.unparse(e)
            if isinstance(s.exc, ast.Call):
                for a in s.exc.args:
                    self.ev(a, env)
        return ("RAISE", kind)

    def s_Delete(self, s, env, rest):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                c, k = self.ev(t.value, env), self.ev(t.slice, env)
                if isinstance(c, dict):
                    c.pop(hk(k), None)
                elif isinstance(c, list):
                    del c[k]
        return NORET

    def s_Import(self, s, env, rest):
        for a in s.names:
            m = self.imp(a.name)
            if a.asname:
                env.set(a.asname, m)
            else:
                root = a.name.split(".")[0]
                env.set(root, self.imp(root))
        return NORET

    def s_ImportFrom(self, s, env, rest):
        base = s.module or ""
        if s.level:
            parts = env.mod.name.split(".")
            up = s.level - (1 if getattr(env.mod, "ispkg", False) else 0)
            parts = parts[: len(parts) - up] if up else parts
            base = ".".join(parts + ([s.module] if s.module else []))
        if base == "__future__":
            return NORET
        m = self.imp(base)
        for a in s.names:
            if a.name == "*":
                if isinstance(m, Module):
                    allv = m.env.vars.get("__all__")
                    for k, v in list(m.env.vars.items()):
                        if (allv is None and not k.startswith("_")) or (allv is not None and k in allv):
                            env.set(k, v)
                continue
            v = self.attr(m, a.name)
            env.set(a.asname or a.name, v)
        return NORET

    def s_FunctionDef(self, s, env, rest):
        f = self.mkfunc(s, env, s.name)
        v = f
        for d in reversed(s.decorator_list):
            dec = self.ev(d, env)
            v = self.decorate(dec, v, f)
        env.set(s.name, v)
        return NORET

    s_AsyncFunctionDef = s_FunctionDef

    def decorate(self, dec, v, f):
        name = dec.name if isinstance(dec, (Ext, Builtin)) else None
        if isinstance(dec, Ext):
            base = dec.name
            if base in ("property", "staticmethod", "classmethod"):
                return (base, v)
            if base.endswith("jit"):
                f.jit = True
            return self.call(dec, [v], {})
        return self.call(dec, [v], {})

    def mkfunc(self, s, env, name):
        a = s.args
        defaults = [self.ev(d, env) for d in a.defaults]
        kwd = [None if d is None else self.ev(d, env) for d in a.kw_defaults]
        return Closure(s, env, env.mod, name, defaults, kwd)

    def s_ClassDef(self, s, env, rest):
        bases = [self.ev(b, env) for b in s.bases]
        cenv = Env(env, env.mod, s.name)
        fields = []
        for st in s.body:
            self.setloc(st, env)
            if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                dv = self.ev(st.value, cenv) if st.value is not None else NORET
                fields.append((st.target.id, dv))
                if dv is not NORET:
                    cenv.vars[st.target.id] = dv
            else:
                self.stmt(st, cenv, [])
        c = ClassVal(s.name, bases, cenv.vars, env.mod, s)
        decs = [self.ev(d, env) for d in s.decorator_list]
        isnt = any(isinstance(b, Ext) and b.name.endswith("NamedTuple") for b in bases)
        isdc = any(
            (isinstance(d, Ext) and "dataclass" in d.name) or (isinstance(d, Builtin) and "dataclass" in d.name)
            for d in decs
        )
        inh = []
        for b in bases:
            if isinstance(b, ClassVal) and b.fields:
                inh += b.fields
        if isnt or isdc or inh:
            c.fields = inh + fields
            c.tuple_like = isnt or any(getattr(b, "tuple_like", False) for b in bases)
        v = c
        for d in decs:
            if isinstance(d, (Closure,)):
                v = self.call(d, [v], {})
        env.set(s.name, v)
        return NORET

    def s_Assign(self, s, env, rest):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)
        return NORET

    def s_AnnAssign(self, s, env, rest):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)
        return NORET

    def s_AugAssign(self, s, env, rest):
        opn = type(s.op).__name__
        rhs = self.ev(s.value, env)
        if isinstance(s.target, ast.Name):
            cur = self.name(s.target.id, env)
            if self.is_owned(cur):
                self.event("inplace", "augmented assignment to %r, which may be the caller's array" % s.target.id)
            if isinstance(cur, (list, dict)) and opn in ("Add", "BitOr"):
                self.mutates(cur, "augmented assignment")
            if isinstance(cur, Vec) and not self.is_owned(cur):
                self.mutates(cur, "augmented assignment")
            if isinstance(cur, list) and opn == "Add":
                cur.extend(self.iterate(rhs))
                return NORET
            if isinstance(cur, dict) and opn == "BitOr":
                cur.update(rhs)
                return NORET
            env.set(s.target.id, self.binop(opn, cur, rhs))
            return NORET
        if isinstance(s.target, ast.Subscript):
            o = self.ev(s.target.value, env)
            k = self.ev(s.target.slice, env)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.binop(opn, cur, rhs))
            return NORET
        o = self.ev(s.target.value, env)
        cur = self.attr(o, s.target.attr)
        self.setattr(o, s.target.attr, self.binop(opn, cur, rhs))
        return NORET

    def is_owned(self, v):
        if isinstance(v, Node):
            return v in self.caller_owned
        return isinstance(v, Vec) and v.owner is not None

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.set(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
            try:
                items = self.iterate(v, hint=None if star else len(t.elts))
            except Unsupported:
                if not star or not isinstance(v, Node):
                    raise
                # the ends of an array of unknown length
                for k, e in enumerate(t.elts):
                    if k == i:
                        self.assign(e.value, self.getitem(v, slice(i, -after if after else None)), env)
                    else:
                        self.assign(e, self.getitem(v, k if k < i else k - len(t.elts)), env)
                return
            if star:
                if len(items) < len(t.elts) - 1:
                    raise StaticRaise("ValueError", "not enough values to unpack")
                parts = items[:i] + [list(items[i: len(items) - after])] + items[len(items) - after:]
                for e, x in zip(t.elts, parts):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, env)
            else:
                if len(items) != len(t.elts):
                    raise StaticRaise("ValueError", "cannot unpack %d values into %d" % (len(items), len(t.elts)))
                for e, x in zip(t.elts, items):
                    self.assign(e, x, env)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        elif isinstance(t, ast.Subscript):
            o, k = self.ev(t.value, env), self.ev(t.slice, env)
            self.setitem(o, k, v)
            if isinstance(t.value, ast.Name) and isinstance(o, Node) and is_num(v):
                # a host array held in a name: the name now stands for the masked array
                if isinstance(k, Node) and ir.is_bool(k):
                    env.set(t.value.id, ir.where(k, N(v), o))
                else:
                    env.set(t.value.id, fn("setitem", o, N(k) if not isinstance(k, slice) else fn("py:%r" % (k,)), N(v)))
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        else:
            raise Unsupported("assign")

    def mutates(self, o, how):
        """a store into an object that was reachable from the package before this call"""
        if id(o) in self.shared:
            self.event("shared-mutation", "%s of %s" % (how, self.shared[id(o)]))

    def share(self):
        """everything reachable from the imported modules is shared between calls from now on"""
        seen = {}
        keep = []

        def rec(o, path):
            if id(o) in seen or isinstance(o, (str, int, float, bool, type(None), Node, Ext)):
                return
            seen[id(o)] = path
            keep.append(o)
            if isinstance(o, Module):
                for k, x in list(o.env.vars.items()):
                    rec(x, o.name + "." + k if not isinstance(x, Module) else x.name)
            elif isinstance(o, dict):
                for k, x in list(o.items()):
                    rec(x, "%s[%r]" % (path, k))
            elif isinstance(o, (list, tuple, set)):
                for x in o:
                    rec(x, path + "[.]")
            elif isinstance(o, Vec):
                for x in o.items:
                    rec(x, path + "[.]")
            elif isinstance(o, Instance):
                rec(o.d, path + ".__dict__")
                rec(o.cls, o.cls.name)
            elif isinstance(o, ClassVal):
                rec(o.ns, path)
                for x in o.bases:
                    rec(x, getattr(x, "name", path))
            elif isinstance(o, Closure):
                for x in list(o.defaults) + [x for x in o.kwdefaults if x is not None]:
                    rec(x, "a default argument of " + path)
                rec(o.attrs, "the attributes of " + path)
                e = o.env
                while e is not None:
                    rec(e, "the scope of " + path)
                    for k, x in list(e.vars.items()):
                        rec(x, path + ":" + k)
                    e = e.parent
        for m in list(self.modules.values()):
            rec(m, m.name)
        self.shared, self._keep = seen, keep

    def setitem(self, o, k, v):
        self.mutates(o, "item assignment")
        if isinstance(o, dict):
            o[hk(k)] = v
        elif isinstance(o, list):
            i = static_int(k)
            if i is None:
                raise Unsupported("list setitem")
            o[i] = v
        elif isinstance(o, Vec):
            if self.is_owned(o):
                self.event("inplace", "item assignment into the caller's array")
            elif self.callstack:
                self.event("item-assign", "item assignment into an array")
            i = static_int(k)
            if i is not None:
                if not -len(o) <= i < len(o):
                    self.event("oob", "store index %d outside length %d" % (i, len(o)))
                    return
                o.items[i] = v
            elif isinstance(k, slice) or k is Ellipsis:
                idx = range(len(o))[k] if isinstance(k, slice) else range(len(o))
                for j, q in enumerate(idx):
                    o.items[q] = v.items[j] if isinstance(v, Vec) else v
            else:
                for j in range(len(o)):
                    b = k.items[j] if isinstance(k, Vec) else B(k)
                    o.items[j] = self.where(b, v.items[j] if isinstance(v, Vec) else v, o.items[j])
        elif isinstance(o, Node):
            if self.is_owned(o):
                self.event("inplace", "item assignment into the caller's array")
            else:
                self.event("item-assign", "item assignment into a traced array")
        elif isinstance(o, Instance):
            m = o.cls.lookup("__setitem__")
            if m:
                self.call(m, [o, k, v], {})
        elif isinstance(o, Ext):
            self.event("ext-mutation", "item assignment on %s" % o.name)
        elif isinstance(o, Opaque):
            # remember the store in the opaque value's identity
            o.node = fn("setitem", N(o), N(k) if not isinstance(k, slice) else fn("py:slice"), N(v))
        else:
            raise Unsupported("setitem on %r" % (o,))

    def setattr(self, o, a, v):
        if self.callstack and not isinstance(o, Module):
            self.mutates(o, "attribute assignment")
        if isinstance(o, Instance):
            o.d[a] = v
        elif isinstance(o, Closure):
            o.attrs[a] = v
        elif isinstance(o, Module):
            o.env.vars[a] = v
            if self.callstack:
                self.event("global-mutation", "assignment to module attribute %s.%s" % (o.name, a))
        elif isinstance(o, ClassVal):
            o.ns[a] = v
        elif isinstance(o, Ext):
            self.event("ext-mutation", "assignment to %s.%s" % (o.name, a))
        elif isinstance(o, Builtin):
            o.attrs[a] = v
        # anything else: ignored

    def s_If(self, s, env, rest):
        c = B(self.ev(s.test, env))
        if c is ir.TRUE:
            return self.block(s.body, env)
        if c is ir.FALSE:
            return self.block(s.orelse, env)
        self.event("traced-branch", "Python branch on a data dependent condition: %s" % ir.show(c, 3), c)
        has_flow = any(
            isinstance(x, (ast.Return, ast.Raise, ast.Break, ast.Continue))
            for b in (s.body, s.orelse) for st in b for x in walk_nofunc(st)
        )
        e1, e2 = env.copy(), env.copy()
        if has_flow:
            r1 = self.block(list(s.body) + list(rest), e1)
            r2 = self.block(list(s.orelse) + list(rest), e2)
            return ("DONE", self.joinret(c, r1, r2, e1, e2, env))
        self.block(s.body, e1)
        self.block(s.orelse, e2)
        self.joinenv(c, e1, e2, env)
        return NORET

    def joinret(self, c, r1, r2, e1, e2, env):
        if isinstance(r1, tuple) and r1[0] == "RAISE":
            env.vars.update(e2.vars)
            return r2
        if isinstance(r2, tuple) and r2[0] == "RAISE":
            env.vars.update(e1.vars)
            return r1
        if isinstance(r1, tuple) and isinstance(r2, tuple):
            return ("RET", self.where(c, r1[1], r2[1]))
        if r1 is r2:
            self.joinenv(c, e1, e2, env)
            return r1
        if r1 is NORET and isinstance(r2, tuple):
            return ("RET", self.where(c, None, r2[1]))
        if r2 is NORET and isinstance(r1, tuple):
            return ("RET", self.where(c, r1[1], None))
        raise Unsupported("control flow join")

    def joinenv(self, c, e1, e2, env):
        for k in set(e1.vars) | set(e2.vars):
            if k in e1.vars and k in e2.vars:
                a, b = e1.vars[k], e2.vars[k]
                env.vars[k] = a if a is b else self.where(c, a, b)
            else:
                env.vars[k] = e1.vars.get(k, e2.vars.get(k))

    def s_For(self, s, env, rest):
        items = self.iterate(self.ev(s.iter, env))
        if len(items) > 20000:
            raise Unsupported("long loop")
        for it in items:
            self.assign(s.target, it, env)
            r = self.block(s.body, env)
            if r is BREAK:
                return NORET
            if r is CONT or r is NORET:
                continue
            return r
        if s.orelse:
            return self.block(s.orelse, env)
        return NORET

    def s_While(self, s, env, rest):
        for _ in range(100000):
            c = B(self.ev(s.test, env))
            if c is ir.FALSE:
                return NORET
            if c is not ir.TRUE:
                self.event("traced-branch", "while loop on a data dependent condition", c)
                raise Unsupported("while on traced value")
            r = self.block(s.body, env)
            if r is BREAK:
                return NORET
            if r is CONT or r is NORET:
                continue
            return r
        raise Unsupported("while bound")

    def s_With(self, s, env, rest):
        for it in s.items:
            v = self.ev(it.context_expr, env)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
        return self.block(s.body, env)

    def s_Try(self, s, env, rest):
        try:
            r = self.block(s.body, env)
        except StaticRaise as e:
            r = ("RAISE", e.kind)
        if isinstance(r, tuple) and r[0] == "RAISE":
            for h in s.handlers:
                names = []
                if h.type is not None:
                    names = [ast.unparse(x).split(".")[-1] for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                if not names or r[1].split(".")[-1] in names or "Exception" in names or (
                    r[1] == "KeyError" and "LookupError" in names):
                    if h.name:
                        env.set(h.name, Opaque("exc"))
                    r = self.block(h.body, env)
                    break
        elif s.orelse and r is NORET:
            r = self.block(s.orelse, env)
        if s.finalbody:
            q = self.block(s.finalbody, env)
            if q is not NORET:
                return q
        return r

    def s_Match(self, s, env, rest):
        v = self.ev(s.subject, env)
        for c in s.cases:
            b = self.pattern(c.pattern, v, env)
            if b and c.guard is not None:
                g = B(self.ev(c.guard, env))
                if g is not ir.TRUE and g is not ir.FALSE:
                    raise Unsupported("match guard on an unknown value")
                b = g is ir.TRUE
            if b:
                return self.block(c.body, env)
        return NORET

    def pattern(self, p, v, env):
        """does the value match the pattern? (binds its names)"""
        if isinstance(p, ast.MatchValue):
            b = B(self.compare1("Eq", v, self.ev(p.value, env)))
            if b is not ir.TRUE and b is not ir.FALSE:
                raise Unsupported("match on an unknown value")
            return b is ir.TRUE
        if isinstance(p, ast.MatchSingleton):
            if isinstance(v, Node):
                if p.value is None:
                    return False
                raise Unsupported("match on an unknown value")
            return v is p.value
        if isinstance(p, ast.MatchAs):
            ok = p.pattern is None or self.pattern(p.pattern, v, env)
            if ok and p.name:
                env.set(p.name, v)
            return ok
        if isinstance(p, ast.MatchOr):
            return any(self.pattern(q, v, env) for q in p.patterns)
        if isinstance(p, ast.MatchSequence) and isinstance(v, (list, tuple)):
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            n = len(p.patterns)
            if not star:
                return len(v) == n and all(self.pattern(q, x, env) for q, x in zip(p.patterns, v))
            i, after = star[0], n - star[0] - 1
            if len(v) < n - 1:
                return False
            if not all(self.pattern(q, x, env) for q, x in zip(p.patterns[:i], v)):
                return False
            if p.patterns[i].name:
                env.set(p.patterns[i].name, list(v[i: len(v) - after]))
            return all(self.pattern(q, x, env) for q, x in zip(p.patterns[i + 1:], v[len(v) - after:]))
        if isinstance(p, ast.MatchSequence) and (v is None or isinstance(v, (str, dict, int, float, bool))):
            return False
        raise Unsupported("match pattern")

    # ---- expressions ----
    def ev(self, n, env):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(n).__name__)
        if hasattr(n, "lineno"):
            p = env.mod.path or ""
            ir.CUR[0] = (p.replace("/repo/", ""), n.lineno, env.fname)
        return m(n, env)

    def e_Constant(self, n, env):
        v = n.value
        if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)) or v is Ellipsis:
            return v
        if isinstance(v, int):
            return v
        if isinstance(v, float):
            return self.floatlit(v, n, env)
        if isinstance(v, complex):
            return ir.mul(self.floatlit(v.imag, None, env), ir.I)
        raise Unsupported("constant")

    def floatlit(self, v, n, env):
        if v == math.inf:
            return ir.INF
        text = repr(v)
        if n is not None:
            lines = getattr(env.mod, "lines", None)
            if lines is None:
                with open(env.mod.path) as fh:
                    lines = env.mod.lines = fh.read().split("\n")
            try:
                if n.lineno == n.end_lineno:
                    seg = lines[n.lineno - 1].encode()[n.col_offset:n.end_col_offset].decode()
                    if float(seg.replace("_", "")) == v:
                        text = seg
            except Exception:
                pass
        return float_node(text)

    def name(self, k, env):
        try:
            return env.get(k)
        except KeyError:
            pass
        if k in BUILTIN_NAMES:
            return Ext(k)
        raise StaticRaise("NameError", k)

    def e_Name(self, n, env):
        return self.name(n.id, env)

    def e_Tuple(self, n, env):
        return tuple(self.elts(n.elts, env))

    def e_List(self, n, env):
        return self.elts(n.elts, env)

    def elts(self, es, env):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                out.extend(self.iterate(self.ev(e.value, env)))
            else:
                out.append(self.ev(e, env))
        return out

    def e_Set(self, n, env):
        return set(hk(self.ev(e, env)) for e in n.elts)

    def e_Dict(self, n, env):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                d.update(self.ev(v, env))
            else:
                d[hk(self.ev(k, env))] = self.ev(v, env)
        return d

    def e_JoinedStr(self, n, env):
        out = ""
        for v in n.values:
            if isinstance(v, ast.Constant):
                out += str(v.value)
            else:
                x = self.ev(v.value, env)
                if isinstance(x, (str, int)):
                    out += format(x, "".join(str(q.value) for q in v.format_spec.values if isinstance(q, ast.Constant)) if v.format_spec else "")
                elif isinstance(x, Node):
                    out += ir.show(x)
                else:
                    out += str(x)
        return out

    def e_Lambda(self, n, env):
        return self.mkfunc(n, env, "<lambda>")

    def e_IfExp(self, n, env):
        c = B(self.ev(n.test, env))
        if c is ir.TRUE:
            return self.ev(n.body, env)
        if c is ir.FALSE:
            return self.ev(n.orelse, env)
        self.event("traced-branch", "conditional expression on a data dependent condition: %s" % ir.show(c, 3), c)
        return self.where(c, self.ev(n.body, env), self.ev(n.orelse, env))

    def e_Yield(self, n, env):
        if YIELDS not in env.vars:
            raise Unsupported("yield outside a plain generator function")
        env.vars[YIELDS] = env.vars[YIELDS] + (None if n.value is None else self.ev(n.value, env),)
        return None

    def e_YieldFrom(self, n, env):
        if YIELDS not in env.vars:
            raise Unsupported("yield outside a plain generator function")
        env.vars[YIELDS] = env.vars[YIELDS] + tuple(self.iterate(self.ev(n.value, env)))
        return None

    def e_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        self.assign(n.target, v, env)
        return v

    def e_Starred(self, n, env):
        return self.ev(n.value, env)

    def e_BoolOp(self, n, env):
        isand = isinstance(n.op, ast.And)
        acc = None
        for i, e in enumerate(n.values):
            v = self.ev(e, env)
            b = B(v)
            if acc is None:
                if b is ir.TRUE or b is ir.FALSE:
                    if (b is ir.FALSE) == isand:
                        return v
                    if i == len(n.values) - 1:
                        return v
                    continue
                self.event("traced-branch", "and/or on a data dependent condition", b)
                acc = b
            else:
                acc = ir.and_(acc, b) if isand else ir.or_(acc, b)
        return acc

    def e_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        o = type(n.op).__name__
        if o == "Not":
            b = B(v)
            if b is ir.TRUE:
                return False
            if b is ir.FALSE:
                return True
            self.event("traced-branch", "`not` of a data dependent condition", b)
            return ir.not_(b)
        if o == "UAdd":
            return v
        if o == "Invert":
            return bc(lambda x: ir.not_(B(x)) if isinstance(x, (Node, bool)) else ~x, v)
        if isinstance(v, int) and not isinstance(v, bool):
            return -v
        return bc(lambda x: ir.neg(num(x)), v)

    def e_BinOp(self, n, env):
        a = self.ev(n.left, env)
        b = self.ev(n.right, env)
        if hasattr(n, "lineno"):
            p = env.mod.path or ""
            ir.CUR[0] = (p.replace("/repo/", ""), n.lineno, env.fname)
        return self.binop(type(n.op).__name__, a, b)

    def binop(self, o, a, b):
        if isinstance(a, bool) and not isinstance(b, bool):
            a = int(a)
        pyint = isinstance(a, int) and isinstance(b, int)
        if pyint:
            if o == "Add":
                return a + b
            if o == "Sub":
                return a - b
            if o == "Mult":
                return a * b
            if o == "FloorDiv":
                return a // b
            if o == "Mod":
                return a % b
            if o == "Pow" and b >= 0:
                return a ** b
            if o == "BitAnd":
                return a & b
            if o == "BitOr":
                return a | b
            if o == "LShift":
                return a << b
            if o == "RShift":
                return a >> b
            if o == "BitXor":
                return a ^ b
        if o == "Add":
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            if isinstance(a, list) and isinstance(b, list):
                return a + b
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
        if o == "Mult":
            if isinstance(a, (list, tuple, str)) and isinstance(b, int):
                return a * b
            if isinstance(b, (list, tuple, str)) and isinstance(a, int):
                return b * a
        if o == "Mod" and isinstance(a, str):
            return a
        if o == "BitOr" and isinstance(a, dict):
            return {**a, **b}
        if o == "BitOr" and not isinstance(a, (Node, Vec, bool, int)):
            return Ext("typing.Union")          # X | Y annotations
        if o == "Div" and not is_num(a) and not isinstance(a, (Vec, Opaque)):
            return Opaque("path", fn("path", N(a), N(b)))               # pathlib
        if isinstance(a, Instance) or isinstance(b, Instance):
            r = self.dunder(o, a, b)
            if r is not NORET:
                return r
        if isinstance(a, (list, tuple)) and isinstance(b, (Vec, Node)):
            a = Vec(a)
        if isinstance(b, (list, tuple)) and isinstance(a, (Vec, Node)):
            b = Vec(b)
        if o == "MatMult":
            return self.matmul(a, b)
        f = {
            "Add": lambda x, y: ir.add(num(x), num(y)),
            "Sub": lambda x, y: ir.sub(num(x), num(y)),
            "Mult": lambda x, y: ir.mul(num(x), num(y)),
            "Div": lambda x, y: ir.div(num(x), num(y)),
            "Pow": lambda x, y: self.pow(num(x), num(y)),
            "FloorDiv": lambda x, y: self.floordiv(num(x), num(y)),
            "Mod": lambda x, y: self.mod(num(x), num(y)),
            "BitAnd": lambda x, y: ir.and_(B(x), B(y)),
            "BitOr": lambda x, y: ir.or_(B(x), B(y)),
            "BitXor": lambda x, y: ir.or_(ir.and_(B(x), ir.not_(B(y))), ir.and_(B(y), ir.not_(B(x)))),
        }.get(o)
        if f is None:
            raise Unsupported("operator " + o)
        if isinstance(a, Opaque):
            a = N(a)
        if isinstance(b, Opaque):
            b = N(b)
        return bc(f, a, b)

    def dunder(self, o, a, b):
        nm = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "Pow": "pow", "MatMult": "matmul"}.get(o)
        if nm is None:
            return NORET
        if isinstance(a, Instance):
            m = a.cls.lookup("__%s__" % nm)
            if m is not None:
                return self.call(m, [a, b], {})
        if isinstance(b, Instance):
            m = b.cls.lookup("__r%s__" % nm)
            if m is not None:
                return self.call(m, [b, a], {})
        return NORET

    def pow(self, x, y):
        if y.op == "const":
            return ir.power(x, y.args[0])
        if x.op == "const" and x.args[0] == 1:
            return ir.ONE
        return fn("power", x, y)

    def floordiv(self, x, y):
        if x.op == "const" and y.op == "const" and y.args[0] != 0:
            return const(x.args[0] // y.args[0])
        return fn("floor", ir.div(x, y))

    def mod(self, x, y):
        if x.op == "const" and y.op == "const" and y.args[0] != 0:
            return const(x.args[0] % y.args[0])
        return fn("mod", x, y)

    def matmul(self, a, b):
        a = Vec(a) if isinstance(a, (list, tuple)) else a
        b = Vec(b) if isinstance(b, (list, tuple)) else b
        if not isinstance(a, Vec) or not isinstance(b, Vec):
            return fn("matmul", N(a), N(b))
        if not isinstance(a.items[0], Vec):
            if not isinstance(b.items[0], Vec):
                if len(a) != len(b):
                    raise StaticRaise("ShapeError", "dot of different lengths")
                if any(has_grid(N(x)) for x in a.items):
                    raise Unsupported("matmul over the frequency axis")
                return self.sum_(Vec([self.binop("Mult", x, y) for x, y in zip(a.items, b.items)]), axis=0)
            return self.sum_(Vec([self.binop("Mult", x, y) for x, y in zip(a.items, b.items)]), axis=0)
        return Vec([self.matmul(r, b) if not isinstance(b.items[0], Vec) else
                    Vec([self.matmul(r, Vec([bb.items[j] for bb in b.items])) for j in range(len(b.items[0]))])
                    for r in a.items])

    def e_Compare(self, n, env):
        l = self.ev(n.left, env)
        acc = None
        for o, c in zip(n.ops, n.comparators):
            r = self.ev(c, env)
            v = self.compare1(type(o).__name__, l, r)
            if acc is None:
                acc = v
            else:
                x, y = B(acc), B(v)
                acc = ir.and_(x, y)
                if acc is ir.TRUE:
                    acc = True
                elif acc is ir.FALSE:
                    acc = False
            if acc is False:
                return False
            l = r
        return acc

    def compare1(self, o, a, b):
        if o in ("Is", "IsNot"):
            r = (a is b) or (a is None and b is None) or (isinstance(a, (Ext,)) and a == b) or (
                isinstance(a, (bool, str, int)) and type(a) is type(b) and a == b)
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                r = a is b
            return r if o == "Is" else not r
        if o in ("In", "NotIn"):
            if isinstance(b, (dict, set)):
                r = hk(a) in b
            elif isinstance(b, str):
                r = a in b
            elif isinstance(b, (list, tuple)):
                r = any(B(self.compare1("Eq", a, x)) is ir.TRUE for x in b)
            elif isinstance(b, Instance) and b.cls.lookup("__contains__"):
                r = B(self.call(b.cls.lookup("__contains__"), [b, a], {})) is ir.TRUE
            elif isinstance(b, range):
                r = static_int(a) in b
            else:
                return fn("boolext", N(a), N(b))
            return r if o == "In" else not r
        prim = (str, type(None), tuple, list, dict, set, Closure, ClassVal, Ext, Module, Builtin)
        if isinstance(a, prim) or isinstance(b, prim):
            if isinstance(a, (list, tuple)) and isinstance(b, Vec):
                a = Vec(a)
            elif isinstance(b, (list, tuple)) and isinstance(a, Vec):
                b = Vec(b)
            else:
                try:
                    r = a == b
                except Exception:
                    r = False
                if o == "Eq":
                    return bool(r)
                if o == "NotEq":
                    return not r
                if isinstance(a, str) and isinstance(b, str) or isinstance(a, tuple) and isinstance(b, tuple):
                    return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[o]
                raise Unsupported("compare")

        def f(x, y):
            x, y = num(x), num(y)
            r = {
                "Lt": lambda: ir.lt(x, y), "LtE": lambda: ir.le(x, y),
                "Gt": lambda: ir.lt(y, x), "GtE": lambda: ir.le(y, x),
                "Eq": lambda: ir.eq(x, y), "NotEq": lambda: ir.not_(ir.eq(x, y)),
            }[o]()
            return True if r is ir.TRUE else False if r is ir.FALSE else r
        if isinstance(a, Opaque):
            a = N(a)
        if isinstance(b, Opaque):
            b = N(b)
        return bc(f, a, b)

    def e_Call(self, n, env):
        f = self.ev(n.func, env)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.ev(a.value, env)))
            else:
                args.append(self.ev(a, env))
        kw = {}
        for k in n.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                kw.update(v)
            else:
                kw[k.arg] = v
        self.setloc(n, env)
        keep = ir.CUR[0]
        r = self.call(f, args, kw)
        ir.CUR[0] = keep
        return r

    def e_Attribute(self, n, env):
        return self.attr(self.ev(n.value, env), n.attr)

    def e_Subscript(self, n, env):
        o = self.ev(n.value, env)
        k = self.ev(n.slice, env)
        return self.getitem(o, k)

    def e_Slice(self, n, env):
        g = lambda x: None if x is None else self.ev(x, env)
        return slice(*[static_int(v) if v is not None and static_int(v) is not None else v
                       for v in (g(n.lower), g(n.upper), g(n.step))])

    def comp(self, gens, env, emit):
        def rec(i, e):
            if i == len(gens):
                emit(e)
                return
            g = gens[i]
            for it in self.iterate(self.ev(g.iter, e)):
                self.assign(g.target, it, e)
                ok = True
                for c in g.ifs:
                    b = B(self.ev(c, e))
                    if b is ir.FALSE:
                        ok = False
                    elif b is not ir.TRUE:
                        self.event("traced-branch", "comprehension filter", b)
                if ok:
                    rec(i + 1, e)
        rec(0, Env(env, env.mod, env.fname))

    def e_ListComp(self, n, env):
        out = []
        self.comp(n.generators, env, lambda e: out.append(self.ev(n.elt, e)))
        return out

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n, env):
        out = set()
        self.comp(n.generators, env, lambda e: out.add(hk(self.ev(n.elt, e))))
        return out

    def e_DictComp(self, n, env):
        out = {}
        self.comp(n.generators, env, lambda e: out.__setitem__(hk(self.ev(n.key, e)), self.ev(n.value, e)))
        return out

    # ---- object protocol ----
    def iterate(self, v, hint=None):
        if isinstance(v, (list, tuple, range, set)):
            return list(v)
        if isinstance(v, Vec):
            return list(v.items)
        if isinstance(v, dict):
            return list(v.keys())
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Instance):
            if v.cls.fields and getattr(v.cls, "tuple_like", False):
                return [v.d[k] for k, _ in v.cls.fields]
            m = v.cls.lookup("__iter__")
            if m is not None:
                return self.iterate(self.call(m, [v], {}))
        if isinstance(v, Node) and v.op == "where":
            pass
        if hasattr(v, "columns") and not v.columns:
            raise Unsupported("iteration over the rows of a table")
        if isinstance(v, (Node, Opaque)) and hint is not None:
            n = N(v)
            return [fn("item", n, const(i)) for i in range(hint)]
        raise Unsupported("iteration over %r" % (v,))

    def attr(self, o, a):
        if isinstance(o, Module):
            if a in o.env.vars:
                return o.env.vars[a]
            sub = self.module(o.name + "." + a)
            if sub is not None:
                return sub
            raise StaticRaise("AttributeError", "%s.%s" % (o.name, a))
        if isinstance(o, Ext):
            full = canon_ext(o.name + "." + a)
            from . import externs
            known, v = externs.constval(full)
            return v if known else Ext(full)
        if isinstance(o, Instance):
            if a in o.d:
                return o.d[a]
            m = o.cls.lookup(a)
            if m is None:
                if a == "_replace" or a == "replace":
                    def rep(args, kw):
                        n = Instance(o.cls)
                        n.d = dict(o.d)
                        n.d.update(kw)
                        return n
                    return Builtin(rep, "_replace")
                if a == "_asdict":
                    return Builtin(lambda args, kw: dict(o.d), "_asdict")
                if a == "__dict__":
                    return o.d
                if a == "__class__":
                    return o.cls
                raise StaticRaise("AttributeError", a)
            if isinstance(m, tuple) and m and m[0] in ("property", "staticmethod", "classmethod"):
                if m[0] == "property":
                    return self.call(m[1], [o], {})
                if m[0] == "staticmethod":
                    return m[1]
                return self.bind(m[1], o.cls)
            if isinstance(m, (Closure, Builtin)):
                return self.bind(m, o)
            return m
        if isinstance(o, ClassVal):
            m = o.lookup(a)
            if m is None:
                if a == "__name__":
                    return o.name
                if a == "_fields":
                    return tuple(k for k, _ in o.fields or [])
                raise StaticRaise("AttributeError", a)
            if isinstance(m, tuple) and m and m[0] in ("staticmethod",):
                return m[1]
            if isinstance(m, tuple) and m and m[0] == "classmethod":
                return self.bind(m[1], o)
            return m
        if isinstance(o, Closure):
            if a in o.attrs:
                return o.attrs[a]
            if a in ("defjvp", "defjvps"):
                def d(args, kw):
                    o.attrs["__" + a] = args
                    self.custom_jvp[(o.mod.name, o.name)] = (a, args, o)
                    return args[0] if args else None
                return Builtin(d, a)
            if a in ("defvjp",):
                return Builtin(lambda args, kw: self.event("custom-vjp", o.name), a)
            if a == "__name__":
                return o.name
            if a in ("__doc__", "__wrapped__"):
                return "" if a == "__doc__" else o
            if a == "lower":
                return Builtin(lambda args, kw: Opaque("lowered"), "lower")
            raise StaticRaise("AttributeError", a)
        if isinstance(o, Builtin):
            if a in o.attrs:
                return o.attrs[a]
            return Ext(o.name + "." + a)
        if isinstance(o, dict):
            return self.dictattr(o, a)
        if isinstance(o, list):
            return self.listattr(o, a)
        if isinstance(o, tuple) and len(o) == 3 and o[0] == "ATI":
            return self.at_update(o[1], o[2], a)
        if isinstance(o, tuple):
            if a == "index":
                return Builtin(lambda args, kw: list(o).index(args[0]), a)
            if a == "count":
                return Builtin(lambda args, kw: list(o).count(args[0]), a)
        if isinstance(o, set):
            if a == "add":
                self.mutates(o, "set.add()")
                return Builtin(lambda args, kw: o.add(hk(args[0])), a)
        if isinstance(o, str):
            def sm(args, kw):
                try:
                    return getattr(o, a)(*args, **kw)
                except Exception:
                    return Opaque("str." + a)
            return Builtin(sm, "str." + a)
        if isinstance(o, (Vec, Node, int, float)) or isinstance(o, Opaque):
            return self.arrattr(o, a)
        if o is None:
            raise StaticRaise("AttributeError", "None.%s" % a)
        if isinstance(o, slice):
            return getattr(o, a)
        raise Unsupported("attribute %s of %r" % (a, o))

    def bind(self, m, o):
        b = Builtin(lambda args, kw: self.call(m, [o] + list(args), kw), getattr(m, "name", "method"))
        b.target = m
        return b

    def dictattr(self, o, a):
        t = {
            "keys": lambda args, kw: list(o.keys()), "values": lambda args, kw: list(o.values()),
            "items": lambda args, kw: [(k, v) for k, v in o.items()],
            "get": lambda args, kw: o.get(hk(args[0]), args[1] if len(args) > 1 else kw.get("default")),
            "update": lambda args, kw: o.update(dict(args[0]) if args and not isinstance(args[0], dict) else (args[0] if args else {}), **kw),
            "copy": lambda args, kw: dict(o),
            "pop": lambda args, kw: o.pop(hk(args[0]), *args[1:]),
            "setdefault": lambda args, kw: o.setdefault(hk(args[0]), args[1] if len(args) > 1 else None),
            "clear": lambda args, kw: o.clear(),
        }
        if a in ("update", "pop", "setdefault", "clear"):
            self.mutates(o, "dict.%s()" % a)
        if a in t:
            return Builtin(t[a], "dict." + a)
        raise StaticRaise("AttributeError", a)

    def listattr(self, o, a):
        t = {
            "append": lambda args, kw: o.append(args[0]), "extend": lambda args, kw: o.extend(self.iterate(args[0])),
            "insert": lambda args, kw: o.insert(args[0], args[1]), "pop": lambda args, kw: o.pop(*args),
            "reverse": lambda args, kw: o.reverse(), "index": lambda args, kw: o.index(args[0]),
            "copy": lambda args, kw: list(o), "count": lambda args, kw: o.count(args[0]),
            "sort": lambda args, kw: o.sort(), "clear": lambda args, kw: o.clear(),
        }
        if a not in ("index", "copy", "count"):
            self.mutates(o, "list.%s()" % a)
        if a in t:
            return Builtin(t[a], "list." + a)
        raise StaticRaise("AttributeError", a)

    def at_update(self, o, k, op):
        """x.at[k].op(v): a copy of a small array with one or several entries replaced"""
        o = Vec(list(o.items)) if isinstance(o, Vec) else o
        join = {"set": None, "add": "Add", "multiply": "Mult", "mul": "Mult", "divide": "Div", "power": "Pow"}

        def pick(x, k):
            if not isinstance(x, Vec):
                raise Unsupported("indexed update of an array over the grid")
            ks = list(k) if isinstance(k, tuple) else [k]
            i = static_int(ks[0])
            if i is not None:
                if not -len(x) <= i < len(x):
                    self.event("oob", "update index %d outside length %d" % (i, len(x)))
                    return None
                idx = [i % len(x)]
                return idx, False, ks[1:]
            if isinstance(ks[0], slice) or ks[0] is Ellipsis and len(ks) == 1:
                return list(range(len(x))[ks[0]] if ks[0] is not Ellipsis else range(len(x))), True, ks[1:]
            if isinstance(ks[0], (Vec, list)):
                idx = [static_int(j) for j in ks[0]]
                if all(j is not None and -len(x) <= j < len(x) for j in idx):
                    return [j % len(x) for j in idx], True, ks[1:]
            raise Unsupported("indexed update")

        def put(x, k, v):
            sel = pick(x, k)
            if sel is None:
                return x
            idx, many, ks = sel
            items = list(x.items)
            for n, i in enumerate(idx):
                w = v.items[n if len(v) > 1 else 0] if many and isinstance(v, Vec) else v
                if ks:
                    items[i] = put(items[i], tuple(ks), w)
                elif join.get(op):
                    items[i] = self.binop(join[op], items[i], w)
                elif op in ("min", "max"):
                    items[i] = bc(lambda p, q: (ir.minimum if op == "min" else ir.maximum)(num(p), num(q)), items[i], w)
                else:
                    # a scalar fills a row
                    items[i] = bc(lambda p, q: q, items[i], w)
            return Vec(items)

        def f(args, kw):
            v = args[0] if args else kw.get("values")
            if op == "get":
                return self.getitem(o, k)
            if op == "apply":
                return put(o, k, self.call(v, [self.getitem(o, k)], {}))
            return put(o, k, Vec(v) if isinstance(v, (list, tuple)) else v)
        if op not in join and op not in ("get", "apply", "min", "max"):
            raise Unsupported("indexed update .%s" % op)
        return Builtin(f, "at." + op)

    def arrattr(self, o, a):
        if a == "at":
            return ("AT", o)
        if a == "T":
            return self.transpose(o)
        if a == "shape":
            s = self.shape(o)
            return s if s is not None else (fn("len", to_whole(N(o))),) if not isinstance(o, (Opaque, Vec)) else Opaque("shape", fn("shape", to_whole(N(o))))
        if a == "size":
            s = self.shape(o)
            if s is None:
                return Opaque("size", fn("len", to_whole(N(o))))
            k = 1
            for x in s:
                k *= x
            return k
        if a == "ndim":
            s = self.shape(o)
            if s is None:
                return 1 if has_grid(N(o)) else 0
            return len(s)
        if a == "dtype":
            return Opaque("dtype")
        if a == "real":
            return bc(lambda x: self.real(num(x)), o)
        if a == "imag":
            return bc(lambda x: self.imag(num(x)), o)
        if a in ("item", "tolist"):
            def f(args, kw):
                self.event("host-coercion", ".%s() on a traced value" % a, o)
                return o
            return Builtin(f, a)
        if a == "as_integer_ratio" or a == "is_integer":
            return Builtin(lambda args, kw: fn("boolext", N(o)), a)
        if a in ("shape_",):
            raise StaticRaise("AttributeError", a)
        meth = {
            "sum": "sum", "prod": "prod", "max": "max", "min": "min", "mean": "mean", "argmin": "argmin",
            "argmax": "argmax", "conj": "conj", "conjugate": "conj", "dot": "dot", "astype": "astype", "copy": "copy",
            "reshape": "reshape", "ravel": "ravel", "flatten": "ravel", "squeeze": "squeeze", "all": "all",
            "any": "any", "cumsum": "cumsum", "transpose": "transpose", "clip": "clip", "round": "round",
            "block_until_ready": "copy", "searchsorted": "searchsorted", "take": "take", "swapaxes": "swapaxes",
            "std": "std", "var": "var", "ptp": "ptp", "nonzero": "nonzero", "repeat": "repeat",
        }
        if a in meth:
            return Builtin(lambda args, kw: self.ext_call("jax.numpy." + meth[a], [o] + list(args), kw), a)
        if isinstance(o, Opaque):
            return Opaque(str(o.tag) + "." + a, fn("attr:" + a, N(o)))
        return Opaque("attr." + a, fn("attr:" + a, N(o)))

    def shape(self, o):
        if isinstance(o, Vec):
            s = self.shape(o.items[0]) if o.items else ()
            return None if s is None else (len(o),) + s
        if isinstance(o, Node) and (has_grid(o) or arraylike(o)):
            return None
        if isinstance(o, Node) and any(d.startswith("@") for d in ir.deps(o)) and not o.op in ("fn:gather",):
            return ()
        if isinstance(o, Opaque):
            return None
        return ()

    def real(self, x):
        return realpart(x)

    def imag(self, x):
        return imagpart(x)

    def transpose(self, o):
        if hasattr(o, "columns"):
            return type(o)(o.node, not o.columns)
        if isinstance(o, Vec) and o.items and isinstance(o.items[0], Vec):
            return Vec([Vec([r.items[j] for r in o.items]) for j in range(len(o.items[0]))])
        return o

    def getitem(self, o, k):
        if isinstance(o, tuple) and o and o[0] == "AT":
            return ("ATI", o[1], k)
        if isinstance(o, dict):
            kk = hk(k)
            if kk not in o:
                if isinstance(kk, (str, int, tuple, bool)):
                    raise StaticRaise("KeyError", str(kk))
                raise Unsupported("dict key")
            return o[kk]
        if isinstance(o, (list, tuple, str, range)):
            if isinstance(k, slice):
                return o[k]
            i = static_int(k)
            if i is None:
                self.event("host-coercion", "a Python sequence is indexed with a traced value", k)
                if all(is_num(x) for x in o) and len(o) > 0:
                    return mk("fn:gather", (vecnode(Vec(o)), N(k)))
                raise Unsupported("list index")
            if not -len(o) <= i < len(o):
                raise StaticRaise("IndexError", str(i))
            return o[i]
        if isinstance(o, Instance):
            m = o.cls.lookup("__getitem__")
            if m is not None:
                return self.call(m, [o, k], {})
            if o.cls.fields:
                return [o.d[f] for f, _ in o.cls.fields][k]
        if isinstance(o, Vec):
            return self.vecitem(o, k)
        if isinstance(o, (Node, int, float)):
            return self.nodeitem(N(o), k)
        if isinstance(o, (Ext, ClassVal)):
            return o                               # typing subscripts
        if hasattr(o, "columns"):
            return o.get(k)
        if isinstance(o, Opaque):
            if isinstance(k, slice):
                return Opaque(o.tag + "[:]", N(o))
            if isinstance(k, (Node, Vec)) or isinstance(k, tuple):
                return Opaque(str(o.tag) + "[]", fn("item", N(o), self.keynode(k)))
            return Opaque("%s[%s]" % (o.tag, k), fn("item", N(o), N(k)))
        raise Unsupported("getitem on %r" % (o,))

    def keynode(self, k):
        if isinstance(k, tuple):
            return mk("fn:vec", tuple(self.keynode(x) for x in k))
        if isinstance(k, slice):
            return fn("py:" + repr(k))
        if k is Ellipsis:
            return fn("py:...")
        return N(k)

    def vecitem(self, o, k):
        if isinstance(k, tuple):
            if not k:
                return o
            if k[0] is Ellipsis:
                depth = len(self.shape(o) or (1,))
                rest = [x for x in k[1:] if x is not None]
                k = (slice(None),) * max(depth - len(rest), 0) + tuple(k[1:])
                if not k:
                    return o
            if k[0] is None:
                return Vec([self.vecitem(o, k[1:])]) if len(k) > 1 else Vec([o])
            if isinstance(k[0], slice):
                sub = o.items[k[0]]
                if len(k) == 1:
                    return Vec(sub)
                return Vec([self.getitem(x, k[1:] if len(k) > 2 else k[1]) if not (k[1] is None and not isinstance(x, Vec)) else Vec([x]) for x in sub])
            r = self.vecitem(o, k[0])
            if len(k) == 1:
                return r
            return self.getitem(r, k[1:] if len(k) > 2 else k[1])
        if k is Ellipsis:
            return o
        if k is None:
            return Vec([o])
        if isinstance(k, slice):
            if any(x is not None and not isinstance(x, int) for x in (k.start, k.stop, k.step)):
                raise Unsupported("symbolic slice")
            n = len(o)
            for x in (k.start, k.stop):
                if isinstance(x, int) and (x > n or x < -n):
                    self.event("oob-slice", "slice bound %d outside length %d" % (x, n))
            return Vec(o.items[k], o.owner, o.host)
        i = static_int(k)
        if i is not None:
            if not -len(o) <= i < len(o):
                self.event("oob", "index %d outside length %d (JAX clamps silently)" % (i, len(o)))
                i = len(o) - 1 if i > 0 else 0
            self.tick(o, i)
            return o.items[i]
        if isinstance(k, (Vec, list)):
            items = k.items if isinstance(k, Vec) else k
            if items and all(static_int(x) is not None for x in items):
                return Vec([self.vecitem(o, x) for x in items])
            raise Unsupported("vector index")
        # symbolic index into a known vector
        if o.host:
            self.event("host-coercion", "a host array is indexed with a traced value", k)
        if ir.constsel(N(k)) and len(o) <= 64:
            return self.pick(N(k), o.items, wrap=True)
        return mk("fn:gather", (vecnode(o), N(k)))

    def pick(self, idx, vals, wrap=False):
        """the entry of vals a selection of constants points to (clamped, as JAX does)"""
        idx = B(idx) if ir.is_bool(idx) else idx
        if ir.is_bool(idx):
            return self.where(idx, vals[min(1, len(vals) - 1)], vals[0])

        def leaf(k):
            i = int(k.args[0])
            if wrap and -len(vals) <= i < 0:
                i += len(vals)
            return vals[max(0, min(i, len(vals) - 1))]
        if idx.op != "const" and ir.seltree(idx) is None:
            raise Unsupported("selection by a computed index")
        return ir.selmap(idx, leaf, self.where)

    def tick(self, o, i):
        pass

    def nodeitem(self, n, k):
        if k is Ellipsis or (isinstance(k, slice) and k == slice(None)):
            return n
        if isinstance(k, tuple):
            ks = [x for x in k if not (x is None or x is Ellipsis or (isinstance(x, slice) and x == slice(None)))]
            if not ks:
                # x[:, None] style broadcasting keeps the elementwise value
                return n
            if len(ks) == 1:
                return self.nodeitem(n, ks[0])
        if k is None:
            return n
        if n.op == "fn:vec":
            i = static_int(k)
            if i is not None and -len(n.args) <= i < len(n.args):
                return n.args[i]
        if n.op.startswith("fn:random"):
            if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], slice):
                return fn("item", n, self.keynode(k))
        if isinstance(k, slice):
            if has_grid(n):
                self.event("grid-slice", "slice of a grid value: %r" % (k,))
                for x in (k.start, k.stop, k.step):
                    if isinstance(x, (Node, Opaque)) and not static_extent(N(x)):
                        self.event("dynamic-shape", "slice bounds depend on a traced value", x)
                r = mk("fn:slice", (to_whole(n), repr(k)))
                if n in self.caller_owned:
                    self.caller_owned[r] = "a view of " + str(self.caller_owned[n])
                return r
            return mk("fn:slice", (n, repr(k)))
        if isinstance(k, Node) and ir.is_bool(k) and k.op != "bool":
            self.event("dynamic-shape", "selection of array entries by a data dependent mask", k)
            return fn("mask", to_whole(n), to_whole(k))
        kn = self.keynode(k)
        if has_grid(n) or any(d.startswith("@") for d in ir.deps(n)):
            return mk("fn:gather", (to_whole(n), kn))
        if isinstance(k, int) and n.op.startswith("fn:"):
            return fn("item", n, kn)
        return fn("item", n, kn)

    # ---- calls ----
    def call(self, f, args, kw):
        if isinstance(f, Closure):
            return self.call_closure(f, args, kw)
        if isinstance(f, Builtin):
            return f.f(args, kw)
        if isinstance(f, Ext):
            return self.ext_call(f.name, args, kw)
        if isinstance(f, ClassVal):
            return self.construct(f, args, kw)
        if isinstance(f, Instance):
            m = f.cls.lookup("__call__")
            if m is not None:
                return self.call(m, [f] + list(args), kw)
        if isinstance(f, tuple) and f and f[0] == "staticmethod":
            return self.call(f[1], args, kw)
        if isinstance(f, Opaque):
            return Opaque("%s()" % (f.tag,), mk("fn:call", (N(f),) + tuple(N(a) for a in args) + tuple(N(kw[k]) for k in sorted(kw))))
        if isinstance(f, Node):
            return mk("fn:call", (f,) + tuple(N(a) for a in args))
        raise Unsupported("call of %r" % (f,))

    def construct(self, c, args, kw):
        o = Instance(c)
        init = c.lookup("__init__")
        if init is not None:
            self.call(init, [o] + list(args), kw)
            return o
        if c.fields is not None:
            names = [k for k, _ in c.fields]
            for k, v in zip(names, args):
                o.d[k] = v
            o.d.update(kw)
            for k, dv in c.fields:
                if k not in o.d:
                    if dv is NORET:
                        raise StaticRaise("TypeError", "missing field " + k)
                    o.d[k] = dv
            pi = c.lookup("__post_init__")
            if pi is not None:
                self.call(pi, [o], {})
            return o
        for b in c.bases:
            if isinstance(b, Ext) and ("Exception" in b.name or "Error" in b.name):
                return o
        if args:
            raise StaticRaise("TypeError", "constructor arguments")
        return o

    def call_closure(self, f, args, kw):
        a = f.node.args
        env = Env(f.env, f.mod, f.name)
        if self.frames > 180:
            raise Unsupported("recursion depth")
        pos = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        for nme, v in zip(pos, args):
            env.vars[nme] = v
        if len(args) > len(pos):
            if a.vararg is None:
                raise StaticRaise("TypeError", "too many arguments to %s" % f.name)
            env.vars[a.vararg.arg] = tuple(args[len(pos):])
        elif a.vararg is not None:
            env.vars[a.vararg.arg] = ()
        for k in list(kw):
            if k in pos or k in [x.arg for x in a.kwonlyargs]:
                if k in env.vars:
                    raise StaticRaise("TypeError", "multiple values for " + k)
                env.vars[k] = kw.pop(k)
        if a.kwarg is not None:
            env.vars[a.kwarg.arg] = kw
        elif kw:
            raise StaticRaise("TypeError", "unexpected keyword %s for %s" % (sorted(kw), f.name))
        nd = len(f.defaults)
        for i, nme in enumerate(pos):
            if nme not in env.vars:
                j = i - (len(pos) - nd)
                if j < 0:
                    raise StaticRaise("TypeError", "missing argument %s of %s" % (nme, f.name))
                env.vars[nme] = f.defaults[j]
        for x, d in zip(a.kwonlyargs, f.kwdefaults):
            if x.arg not in env.vars:
                env.vars[x.arg] = d
        self.calls.add((f.mod.name, f.name))
        if isinstance(f.node, ast.Lambda):
            self.frames += 1
            self.callstack.append(f.name)
            try:
                return self.ev(f.node.body, env)
            finally:
                self.frames -= 1
                self.callstack.pop()
        gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for st in f.node.body for x in walk_nofunc(st))
        if gen:
            # the bodies have no outside effects, so the generator is its list of values
            env.vars[YIELDS] = ()
        self.frames += 1
        self.callstack.append(f.name)
        try:
            r = self.block(f.node.body, env)
        finally:
            self.frames -= 1
            self.callstack.pop()
        if gen:
            if r is not NORET and not (isinstance(r, tuple) and r[0] == "RET" and r[1] is None):
                raise Unsupported("generator result")
            return PyIter(env.vars[YIELDS])
        if r is NORET:
            return None
        if isinstance(r, tuple) and r[0] == "RET":
            return r[1]
        if isinstance(r, tuple) and r[0] == "RAISE":
            raise StaticRaise(r[1])
        raise Unsupported("function result")

    def where(self, c, a, b):
        """structured select"""
        if c is ir.TRUE or c is True:
            return a
        if c is ir.FALSE or c is False:
            return b
        if a is b:
            return a
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and len(a) == len(b):
            return type(a)(self.where(c, x, y) for x, y in zip(a, b))
        if isinstance(a, dict) and isinstance(b, dict) and a.keys() == b.keys():
            return {k: self.where(c, a[k], b[k]) for k in a}
        if isinstance(a, Instance) and isinstance(b, Instance) and a.cls is b.cls:
            o = Instance(a.cls)
            o.d = {k: self.where(c, a.d[k], b.d[k]) for k in a.d}
            return o
        if isinstance(a, (Closure, Ext, Builtin)) or isinstance(b, (Closure, Ext, Builtin)):
            return Builtin(lambda args, kw: self.where(c, self.call(a, args, kw), self.call(b, args, kw)), "select")
        if isinstance(c, Vec) or isinstance(a, Vec) or isinstance(b, Vec):
            return bc(lambda q, x, y: self.where(B(q), x, y), c, a, b)
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            if type(a) is type(b) and a == b:
                return a
            return Opaque("join", fn("join", c, N(a), N(b)))
        x, y = N(a), N(b)
        if ir.is_bool(x) and ir.is_bool(y):
            return ir.or_(ir.and_(c, x), ir.and_(ir.not_(c), y))
        return ir.where(c, num(x), num(y))

    def sum_(self, v, axis=None):
        if isinstance(v, (list, tuple)):
            v = Vec(v)
        if isinstance(v, Vec):
            if axis is None:
                acc = ir.ZERO
                for x in v.items:
                    acc = ir.add(acc, num(self.sum_(x)) if isinstance(x, Vec) else num(x))
                if has_grid(acc):
                    # a sum over all axes of stacked grid values
                    return self.reduce("sum", acc)
                return acc
            ax = static_int(axis)
            if ax == 0:
                acc = 0
                for x in v.items:
                    acc = self.binop("Add", acc, x)
                return acc
            if ax is not None and (ax > 0 or ax == -1):
                if not isinstance(v.items[0], Vec):
                    if ax == -1 and not any(has_grid(N(x)) for x in v.items):
                        return self.sum_(v, 0)
                    return Vec([self.reduce("sum", N(x)) for x in v.items])
                return Vec([self.sum_(x, ax - 1 if ax > 0 else -1) for x in v.items])
            raise Unsupported("sum axis")
        n = num(v)
        return self.reduce("sum", n)

    def reduce(self, kind, n):
        if kind in ("max", "min") and (has_grid(n) or any(d.startswith("@") for d in ir.deps(n))):
            # the largest modulus is the root of the largest squared modulus
            if n.op == "fn:abs":
                z = n.args[0]
                re, im = (realpart(z), imagpart(z)) if _has_I(z) else (z, ir.ZERO)
                return ir.power(self.reduce(kind, ir.add(ir.mul(re, re), ir.mul(im, im))), Fr(1, 2))
            c, d = ir._mon_parts(n)
            if c == 1 and len(d) == 1 and list(d.values()) == [Fr(1, 2)]:
                return ir.power(self.reduce(kind, list(d)[0]), Fr(1, 2))
        if has_grid(n):
            return mk("fn:" + kind, (to_whole(n),))
        return n if kind in ("max", "min", "mean", "all", "any", "sum") and not any(d.startswith("@") for d in ir.deps(n)) and not n.op.startswith("fn:") else mk("fn:" + kind, (n,))

    def ext_call(self, name, args, kw):
        from . import externs
        return externs.call(self, name, args, kw)


def realpart(n):
    r = _reim(n)
    return fn("real", n) if r is None else r[0]


def imagpart(n):
    r = _reim(n)
    return fn("imag", n) if r is None else r[1]


def conj(n):
    if not _has_I(n):
        return n
    return fn("conj", n)


_hasI = {}


def _has_I(n):
    """may the value be complex?  (syms named z: are complex)"""
    if n in _hasI:
        return _hasI[n]
    for m in ir.topo([n]):
        if m in _hasI:
            continue
        if m is ir.I or (m.op == "sym" and m.args[0].lstrip("@").startswith("z:")):
            v = True
        elif m.op in ("fn:real", "fn:imag", "fn:abs", "fn:angle", "fn:argmin") or ir.is_bool(m):
            v = False
        elif m.op == "fn:ifft" or m.op == "fn:fft":
            v = True
        else:
            v = any(_hasI[c] for c in ir.children(m))
        _hasI[m] = v
    return _hasI[n]


def _reim(n):
    if not _has_I(n):
        return n, ir.ZERO
    if n is ir.I:
        return ir.ZERO, ir.ONE
    if n.op == "lin":
        re, im = [const(n.args[0])], []
        for a, v in n.args[1]:
            r = _reim(a)
            if r is None:
                return None
            re.append(ir.scale(r[0], v))
            im.append(ir.scale(r[1], v))
        return ir.add(*re), ir.add(*im)
    if n.op == "mon":
        re, im = ir.ONE, ir.ZERO
        for b, e in n.args:
            if not _has_I(b):
                p = ir.power(b, e)
                re, im = ir.mul(re, p), ir.mul(im, p)
                continue
            if e.denominator != 1 or e < 0 or e > 6:
                return None
            r = _reim(b)
            if r is None:
                return None
            for _ in range(int(e)):
                re, im = ir.sub(ir.mul(re, r[0]), ir.mul(im, r[1])), ir.add(ir.mul(re, r[1]), ir.mul(im, r[0]))
        return re, im
    if n.op == "fn:exp":
        r = _reim(n.args[0])
        if r is None:
            return None
        m = ir.exp(r[0])
        return ir.mul(m, ir.cos(r[1])), ir.mul(m, ir.sin(r[1]))
    if n.op == "fn:conj":
        r = _reim(n.args[0])
        return None if r is None else (r[0], ir.neg(r[1]))
    if n.op == "where":
        a, b = _reim(n.args[1]), _reim(n.args[2])
        if a is None or b is None:
            return None
        return ir.where(n.args[0], a[0], b[0]), ir.where(n.args[0], a[1], b[1])
    return None


def walk_nofunc(st):
    stack = [st]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) and n is not st:
            continue
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def hk(k):
    """hashable dict key"""
    if isinstance(k, Node) and k.op == "const" and k.args[0].denominator == 1:
        return int(k.args[0])
    if isinstance(k, list):
        return tuple(k)
    return k


BUILTIN_NAMES = {
    "len", "range", "enumerate", "zip", "map", "filter", "sum", "abs", "max", "min", "float", "int", "bool", "str",
    "list", "tuple", "dict", "set", "print", "isinstance", "callable", "getattr", "hasattr", "setattr", "sorted",
    "reversed", "any", "all", "round", "pow", "complex", "type", "object", "super", "ValueError", "TypeError",
    "KeyError", "RuntimeError", "Exception", "NotImplementedError", "property", "staticmethod", "classmethod",
    "divmod", "repr", "id", "iter", "next", "slice", "frozenset", "AssertionError", "IndexError", "AttributeError",
    "open", "vars", "locals", "globals", "hash", "format", "bytes", "Warning", "UserWarning", "DeprecationWarning",
    "StopIteration", "ArithmeticError", "ZeroDivisionError", "OverflowError", "ImportError", "NotImplemented",
    "LookupError", "__import__", "exec", "eval", "input",
}

_ALIAS = {
    "jax.numpy": "numpy", "jax.scipy": "scipy", "autograd.numpy": "numpy",
}


def canon_ext(name):
    for k, v in _ALIAS.items():
        if name == k:
            return v if k != "jax.numpy" else "jnumpy"
        if name.startswith(k + "."):
            return ("jnumpy" if k == "jax.numpy" else v) + name[len(k):]
    return name
