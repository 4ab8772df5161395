"""Algebraic value numbering.

Two expressions of the value graph get the same value number when they are
equal as algebraic expressions: every node is mapped homomorphically into a
large finite field F_p[i] (Gulwani and Necula's random interpretation for
global value numbering).  No floating point number is computed and nothing of
the analysed program runs.  "Positive" is quadratic residue, exp is a
homomorphism from a sub-world F_q (q | p-1 for real, q | p+1 for imaginary
exponents), and everything that is not modelled is a hash of the value numbers
of its operands (ordinary value numbering).
"""
import hashlib
import random
from fractions import Fraction as Fr
from . import ir
from .ir import Node
from .primes import TOWERS


class Resample(Exception):
    """this sample hit a non generic point (zero divisor, square root of a non residue)"""
    at = None       # (world, node)


class Undecided(Exception):
    """a value that the analysis does not model"""


def H(*a):
    return int.from_bytes(hashlib.sha256(repr(a).encode()).digest() + hashlib.sha256(repr(("b",) + a).encode()).digest(), "big")


LOGMODE = [0]
ZERO_ANGLE = [False]        # the direction of a vector that vanishes identically is zero, as in IEEE arithmetic


class Ctx:
    """one sample: a tower of worlds with consistent atom assignments"""

    def __init__(self, seed, pos=(), constraints=None, tower=None, alias=None, gates=None, zero=()):
        self.seed = seed
        p, q1, q2, r1, r2 = TOWERS[(seed if tower is None else tower) % len(TOWERS)]
        self.pos = set(pos)
        self.constraints = constraints or {}
        self.main = World(self, "m", p)
        self.main.real = World(self, "r", q1)
        self.main.cplx = World(self, "c", q2)
        self.main.cplx.real = World(self, "cr", r1)
        self.main.cplx.cplx = World(self, "cc", r2)
        self.alias = dict(alias or {})      # sym name -> Node
        self.gates = dict(gates or {})      # bool Node -> bool
        self.twist = set()
        self.twist_memo = {}
        self.deg = {}
        self.opaque = set()
        self.assumed = {}                   # sign decisions taken: node -> bool
        self.signs = frozenset()            # values known to be positive (the order of the break points)

    def worlds(self):
        m = self.main
        return [m, m.real, m.cplx, m.cplx.real, m.cplx.cplx]

    def set_region(self, alias=None, gates=None, dep=()):
        """change aliases/gates; values that do not depend on `dep` symbols are kept"""
        self.alias = dict(alias or {})
        self.gates = dict(gates or {})
        d = set(dep)
        for w in self.worlds():
            for n in [n for n in w.memo if not d.isdisjoint(ir.deps(n))]:
                del w.memo[n]
            w.solves.clear()
        self.tr_clear(d)

    def tr_clear(self, d):
        t = self.main.truths
        for n in [n for n in t if not d.isdisjoint(ir.deps(n))]:
            del t[n]
        for n in [n for n in self.deg if not d.isdisjoint(ir.deps(n))]:
            del self.deg[n]

    def __call__(self, n):
        return self.main.ev(n)

    def twisted(self, b):
        """b is proportional to the frequency that sits at a break point"""
        if not self.twist or self.twist.isdisjoint(ir.deps(b)):
            return False
        r = self.twist_memo.get(b)
        if r is None:
            r = True
            for v in self.twist:
                if v in ir.deps(b):
                    x = ir.sym(v)
                    r = ir.subst(b, {x: ir.ZERO}) is ir.ZERO and v not in ir.deps(ir.diff(b, x))
            self.twist_memo[b] = r
        return r

    def expand(self, names):
        """atoms behind these symbols (aliases resolved)"""
        out, todo = set(), list(names)
        while todo:
            x = todo.pop()
            a = self.alias.get(x)
            if a is None:
                out.add(x)
            else:
                todo += ir.deps(a)
        return out

    def set_signs(self, values):
        """values known to be positive; decisions taken otherwise before are dropped"""
        self.signs = frozenset(values)
        t = self.main.truths
        old = [(n, x) for n, x in t.items() if n.op in ("lt", "le") and n not in self.gates]
        for n, x in old:
            del t[n]
        try:
            flip = any(self.truth(n) != x for n, x in old)
        except Resample:
            flip = True
        if flip:
            for w in self.worlds():
                w.memo.clear()
                w.truths.clear()
                w.solves.clear()
            self.deg.clear()
        return flip

    def known_sign(self, d):
        """the sign that follows from the values known to be positive (0: none)"""
        p, s = self.main.p, self.signs
        e = -d % p
        if d in s or any((d - x) % p in s for x in s):
            return 1
        if e in s or any((e - x) % p in s for x in s):
            return -1
        return 0

    def redraw(self, world, name):
        """another value for one atom of one world; dependent values are dropped"""
        self.signs = frozenset()
        aff = {name} | {x for x in self.alias if name in self.expand([x])}
        # entries of a whole array follow it
        aff |= {a for w in self.worlds() for a in w.atoms if "[" in a and a.split("[")[0] == name}
        # ... and it follows any of its entries
        aff |= {a.split("[")[0] for a in aff if "[" in a}
        below, todo = [], [world]
        while todo:
            w = todo.pop()
            below.append(w)
            todo += [x for x in (w.real, w.cplx) if x is not None]
        # the worlds above hold values computed from those of this one
        for w in self.worlds():
            for n in [n for n in w.memo if not aff.isdisjoint(ir.deps(n))]:
                del w.memo[n]
            w.solves.clear()
        self.tr_clear(aff)
        for w in below:
            w.salt[name] = w.salt.get(name, 0) + 1
            for a in [a for a in w.atoms if a == name or "[" in a and a.split("[")[0] == name]:
                del w.atoms[a]

    def settle(self, roots, cost, tries=12000):
        """values of the roots; single atoms are redrawn until the sample is generic"""
        fails = {}
        for _ in range(tries):
            try:
                # what failed before comes first: a redraw that does not help is noticed early
                for (w, n), k in fails.items():
                    if k < 200:
                        w.ev(n)
                return [self(r) for r in roots]
            except Resample as e:
                if e.at is None:
                    raise Undecided(str(e))
                w, n = e.at
                k = fails[e.at] = fails.get(e.at, 0) + 1
                at = sorted(self.expand(ir.deps(n)), key=lambda a: (cost.get(a, 0), a))
                if k > 2500 or not at:
                    raise Undecided("no generic sample: %s in %s" % (e, ir.show(n, 2)))
                # mostly the atoms fewest values depend on, so that what is settled already stays so
                j = k // 8 if k % 8 == 7 else (k & -k).bit_length() - 1
                self.redraw(w, at[j % len(at)])
        raise Undecided("no generic sample")

    def truth(self, n):
        return self.main.truth(n)


CLOSED = {"fn:sum", "fn:max", "fn:min", "fn:argmin", "fn:argmax", "fn:gather", "fn:len", "fn:prod", "fn:mean"}


class World:
    def __init__(self, ctx, name, p):
        self.ctx, self.name, self.p = ctx, name, p
        self.real = self.cplx = None
        self.memo = {}
        self.atoms = {}
        self.salt = {}
        self.solves = {}
        self.truths = {}
        self.half = (p - 1) // 2
        self._g = self._u = None

    # ---- field -----------------------------------------------------------
    def leg(self, a):
        a %= self.p
        if a == 0:
            return 0
        return 1 if pow(a, self.half, self.p) == 1 else -1

    def inv(self, a):
        if isinstance(a, tuple):
            n = (a[0] * a[0] + a[1] * a[1]) % self.p
            if n == 0:
                raise Resample("division by zero")
            k = pow(n, -1, self.p)
            return (a[0] * k % self.p, -a[1] * k % self.p)
        a %= self.p
        if a == 0:
            raise Resample("division by zero")
        return pow(a, -1, self.p)

    def mul(self, a, b):
        p = self.p
        if isinstance(a, tuple):
            if isinstance(b, tuple):
                return ((a[0] * b[0] - a[1] * b[1]) % p, (a[0] * b[1] + a[1] * b[0]) % p)
            return (a[0] * b % p, a[1] * b % p)
        if isinstance(b, tuple):
            return (a * b[0] % p, a * b[1] % p)
        return a * b % p

    def add(self, a, b):
        p = self.p
        if isinstance(a, tuple) or isinstance(b, tuple):
            a = a if isinstance(a, tuple) else (a, 0)
            b = b if isinstance(b, tuple) else (b, 0)
            return ((a[0] + b[0]) % p, (a[1] + b[1]) % p)
        return (a + b) % p

    def norm(self, a):
        if isinstance(a, tuple) and a[1] == 0:
            return a[0]
        return a

    def fr(self, c):
        return c.numerator * pow(c.denominator, -1, self.p) % self.p

    def ipow(self, a, n):
        if n < 0:
            return self.ipow(self.inv(a), -n)
        if not isinstance(a, tuple):
            return pow(a, n, self.p)
        r = 1
        while n:
            if n & 1:
                r = self.mul(r, a)
            a = self.mul(a, a)
            n >>= 1
        return r

    def rpow(self, a, e, twist=False):
        """a ** e for rational e; twist: the square root of a non residue is imaginary"""
        if e.denominator == 1:
            if a == 0 and e < 0:
                raise Resample("division by zero")
            return self.ipow(a, int(e))
        a = self.norm(a)
        if isinstance(a, tuple):
            raise Undecided("fractional power of a complex value")
        if a % self.p == 0:
            if e > 0:
                return 0
            raise Resample("division by zero")
        b = e.denominator
        if b % 2:
            return pow(a, e.numerator * pow(b, -1, self.p - 1) % (self.p - 1), self.p)
        if self.leg(a) != 1:
            if twist and b % 4 == 2:
                # a = -c with c a residue: (-1)^(n/2k) = i^n for odd k (up to the sign of (-1)^(1/k))
                r = self.rpow(-a % self.p, e)
                n = e.numerator % 4
                return self.mul(r, (1, (0, 1), self.p - 1, (0, self.p - 1))[n])
            raise Resample("root of a non residue")
        h = self.half
        return pow(a, e.numerator * pow(b, -1, h) % h, self.p)

    def sqrt(self, a):
        return self.rpow(a, Fr(1, 2))

    def gen(self):
        if self._g is None:
            k = (self.p - 1) // self.real.p
            r = 3
            while True:
                g = pow(r, k, self.p)
                if g != 1:
                    break
                r += 1
            self._g = g
        return self._g

    def unit(self):
        if self._u is None:
            k = (self.p + 1) // self.cplx.p
            r = 2
            while True:
                z = (r, 1)
                zc = (r, self.p - 1)
                w = self.mul(z, self.inv(zc))      # norm one
                u = self.ipow(w, k)
                if self.norm(u) != 1:
                    break
                r += 1
            self._u = u
        return self._u

    # ---- atoms -------------------------------------------------------------
    def atom(self, name):
        v = self.atoms.get(name)
        if v is not None:
            return v
        salt = self.salt.get(name, 0)
        if "[" in name:
            salt += 1000 * self.salt.get(name.split("[")[0], 0)
        rng = random.Random(H(self.ctx.seed, self.name, name, salt))
        base = name.lstrip("@").split("[")[0]
        pos = name in self.ctx.pos or base in self.ctx.pos or name.startswith(("cst:", "len:"))
        if name.lstrip("@").startswith("z:"):
            v = (rng.randrange(1, self.p), rng.randrange(1, self.p))
            self.atoms[name] = v
            return v
        cons = self.ctx.constraints.get(name, ())
        for _ in range(4000):
            v = rng.randrange(2, self.p)
            if pos:
                v = v * v % self.p
            if all(c(v, self) for c in cons):
                break
        else:
            raise Undecided("no sample for " + name)
        self.atoms[name] = v
        return v

    def hval(self, *key):
        return H(self.ctx.seed, self.name, *key) % (self.p - 2) + 1

    # ---- evaluation ----------------------------------------------------------
    def ev(self, n):
        v = self.memo.get(n)
        if v is None:
            try:
                v = self.norm(self._ev(n))
            except Resample as e:
                if e.at is None:
                    e.at = (self, n)
                raise
            self.memo[n] = v
        return v

    def _ev(self, n):
        op = n.op
        p = self.p
        if op == "lin":
            s = self.fr(n.args[0])
            im = 0
            for a, c in n.args[1]:
                v = self.ev(a)
                k = self.fr(c)
                if isinstance(v, tuple):
                    s += v[0] * k
                    im += v[1] * k
                else:
                    s += v * k
            return (s % p, im % p) if im % p else s % p
        if op == "mon":
            r = 1
            # an exact zero factor kills the product without looking at poles elsewhere
            vals = []
            for b, e in n.args:
                if b.op == "fn:abs" and e.denominator == 1 and e % 2 == 0:
                    v = self.ev(b.args[0])      # |z|^2 needs no square root
                    if isinstance(v, tuple):
                        vals.append(((v[0] * v[0] + v[1] * v[1]) % p, e / 2, False))
                        continue
                    vals.append((v, e, False))
                    continue
                if e.denominator == 2 and self is not self.ctx.main and b.op in ("mon", "lin"):
                    m = self.magnitude(b, e)
                    if m is not None:
                        vals.append((m, Fr(1), False))
                        continue
                v = self.ev(b)
                vals.append((v, e, e.denominator % 2 == 0 and self.ctx.twisted(b)))
            for v, e, t in vals:
                r = self.mul(r, self.rpow(v, e, t))
            return r
        if op == "const":
            return self.fr(n.args[0])
        if op == "sym":
            a = self.ctx.alias.get(n.args[0])
            if a is not None:
                return self.ev(a)
            return self.atom(n.args[0])
        if op == "cst":
            return self.atom("cst:" + n.args[0])
        if op == "I":
            return (0, 1)
        if op == "where":
            return self.ev(n.args[1]) if self.ctx.truth(n.args[0]) else self.ev(n.args[2])
        if op in ir.BOOLOPS:
            return 1 if self.ctx.truth(n) else 0
        if op in ("inf", "nan"):
            return self.hval(op)
        f = getattr(self, "f_" + op[3:], None) if op.startswith("fn:") and op[3:].isidentifier() else None
        if f is not None:
            return f(n)
        return self.opaque(n)

    def magnitude(self, b, e):
        """b^e where b is a square: the sign of its root is decided in the main world"""
        from .interp import _has_I
        c, parts = ir._mon_parts(b)
        if c <= 0 or not parts or any(k.denominator != 1 or k % 2 or _has_I(y) for y, k in parts.items()):
            return None
        r = self.rpow(self.fr(c), e)
        for y, k in parts.items():
            m = self.ctx.main.ev(y)
            if isinstance(m, tuple):
                raise Undecided("magnitude of a complex value")
            v = self._real(self.ev(y))
            r = self.mul(r, self.rpow(v if self.ctx.main.leg(m) >= 0 else -v % self.p, k * e))
        return r

    def opaque(self, n):
        if n.op.startswith("fn:ext:") or n.op.startswith("fn:call") or n.op.startswith("fn:opaque"):
            self.ctx.opaque.add(n)
        vs = []
        for a in n.args:
            if isinstance(a, Node):
                vs.append(self.ev(a) if ir.deps(a) else ("n", a.id))
            else:
                vs.append(repr(a))
        return self.hval(n.op, tuple(vs))

    # ---- predicates (decided in the main world only) --------------------------
    def truth(self, n):
        g = self.ctx.gates.get(n)
        if g is not None:
            return g
        t = self.truths.get(n)
        if t is None:
            t = self._truth(n)
            self.truths[n] = t
        return t

    def _truth(self, n):
        op = n.op
        if op == "bool":
            return n.args[0]
        if op == "not":
            return not self.truth(n.args[0])
        if op == "and":
            return self.truth(n.args[0]) and self.truth(n.args[1])
        if op in ("lt", "le"):
            if op == "lt" and n.args[1] is ir.INF:
                return True
            if n.args[0] is ir.INF:
                return False
            d = self.add(self.ev(n.args[1]), self.mul(-1, self.ev(n.args[0])))
            d = self.norm(d)
            if isinstance(d, tuple):
                raise Undecided("order of complex values")
            s = self.leg(d)
            if s == 0:
                return op == "le"
            if self.ctx.signs and self is self.ctx.main:
                s = self.ctx.known_sign(d) or s
            self.ctx.assumed[n] = s > 0
            return s > 0
        if op == "eq":
            return self.norm(self.add(self.ev(n.args[0]), self.mul(-1, self.ev(n.args[1])))) == 0
        if op == "fn:boolext":
            return bool(self.opaque(n) & 1)
        raise Undecided("predicate " + op)

    # ---- elementary functions -------------------------------------------------
    def reim(self, n):
        from .interp import _reim, _has_I
        if not _has_I(n):
            return n, None
        r = _reim(n)
        if r is None:
            raise Undecided("complex argument " + ir.show(n, 2))
        return r[0], (None if r[1] is ir.ZERO else r[1])

    def f_exp(self, n):
        re, im = self.reim(n.args[0])
        v = self.rexp(re)
        if im is not None:
            v = self.mul(v, self.expi(im))
        return v

    def rexp(self, x):
        if x is ir.ZERO:
            return 1
        c, terms = ir._lin_terms(expanded(x, ("fn:log",)))
        r = 1
        rest = {}
        for t, k in terms.items():
            if t.op == "where":
                b = t.args[1] if self.ctx.truth(t.args[0]) else t.args[2]
                r = self.mul(r, self.rexp(ir.scale(b, k)))
            elif ir.isfn(t, "log"):
                r = self.mul(r, self.rpow(self.ev(t.args[0]), k))
            else:
                rest[t] = k
        rest = ir._mk_lin(c, rest)
        if rest is ir.ZERO:
            return r
        if self.real is None:
            v = self.ev(rest)
            return self.mul(r, pow(self.hval("exp", v), 2, self.p))
        v = self.real.ev(rest)
        if isinstance(v, tuple):
            raise Undecided("complex in a real exponent")
        return self.mul(r, pow(self.gen(), v, self.p))

    def zeta8(self, k):
        k %= 8
        s = self.sqrt(self.fr(Fr(1, 2)))
        p = self.p
        return [1, (s, s), (0, 1), (p - s, s), p - 1, (p - s, p - s), (0, p - 1), (s, p - s)][k]

    def pieces(self, n):
        """n with the selected pieces in place of the selections that sums and products of it contain"""
        while n.op == "where":
            n = n.args[1] if self.ctx.truth(n.args[0]) else n.args[2]
        if not has_piece(n):
            return n
        if n.op == "lin":
            return ir.add(ir.const(n.args[0]), *[ir.scale(self.pieces(t), k) for t, k in n.args[1]])
        xs = [(self.pieces(y), e) for y, e in n.args]
        if any(y is ir.ZERO and e < 0 for y, e in xs):
            raise Resample("division by zero")
        return ir.mul(*[ir.power(y, e) for y, e in xs])

    def expi(self, x):
        """exp(i x) for real x"""
        if x is ir.ZERO:
            return 1
        from .interp import PI
        while True:
            # masked angles: the selected pieces first, so that the turns in them add up
            c, terms = ir._lin_terms(turns(expanded(x, ANGLES)))
            if not any(has_piece(t) for t in terms):
                break
            x = ir.add(ir.const(c), *[ir.scale(self.pieces(t), k) for t, k in terms.items()])
        r = 1
        rest = {}
        for t, k in terms.items():
            if t is PI and (4 * k).denominator == 1:
                r = self.mul(r, self.zeta8(int(4 * k)))
            elif ir.isfn(t, "arctan2") and k.denominator == 1:
                y, z = self.ev(t.args[0]), self.ev(t.args[1])
                if isinstance(y, tuple) or isinstance(z, tuple):
                    raise Undecided("complex arctan2")
                if y == 0 and z == 0:
                    if ZERO_ANGLE[0]:
                        continue
                    raise Resample("arctan2(0,0)")
                m = self.inv(self.sqrt((y * y + z * z) % self.p))
                r = self.mul(r, self.ipow((z * m % self.p, y * m % self.p), int(k)))
            elif ir.isfn(t, "arctan") and k.denominator == 1:
                y = self.ev(t.args[0])
                m = self.inv(self.sqrt((y * y + 1) % self.p))
                r = self.mul(r, self.ipow((m, y * m % self.p), int(k)))
            elif ir.isfn(t, "arctan") and k.denominator == 2:
                y = self.ev(t.args[0])
                cs = self.inv(self.sqrt((y * y + 1) % self.p))
                h = self.sqrt((1 + cs) * pow(2, -1, self.p) % self.p)
                r = self.mul(r, self.ipow((h, y * cs % self.p * self.inv(2 * h) % self.p), int(2 * k)))
            elif ir.isfn(t, "arccos") and (2 * k).denominator == 1:
                y = self.ev(t.args[0])
                i2 = pow(2, -1, self.p)
                if k.denominator == 2:
                    z = (self.sqrt((1 + y) * i2 % self.p), self.sqrt((1 - y) * i2 % self.p))
                    r = self.mul(r, self.ipow(z, int(2 * k)))
                else:
                    z = (y, self.sqrt((1 - y * y) % self.p))
                    r = self.mul(r, self.ipow(z, int(k)))
            elif ir.isfn(t, "arcsin") and k.denominator == 1:
                y = self.ev(t.args[0])
                r = self.mul(r, self.ipow((self.sqrt((1 - y * y) % self.p), y), int(k)))
            elif ir.isfn(t, "mod") and period(t.args[1], k):
                r = self.mul(r, self.expi(ir.scale(t.args[0], k)))
            elif ir.isfn(t, "abs"):
                s = self.ctx.main.leg(self._real(self.ctx.main.ev(t.args[0])))
                r = self.mul(r, self.expi(ir.scale(t.args[0], k * s)))
            else:
                rest[t] = k
        rest = ir._mk_lin(c, rest)
        if rest is ir.ZERO:
            return r
        if self.cplx is None:
            v = self.ev(rest)
            if isinstance(v, tuple):
                raise Undecided("complex phase")
            sg = self.leg(v)
            if sg == 0:
                return r
            t = self.hval("cis", v if sg > 0 else (-v) % self.p)
            d = self.inv((1 + t * t) % self.p)
            z = ((1 - t * t) * d % self.p, 2 * t * d % self.p)
            if sg < 0:
                z = (z[0], -z[1] % self.p)
            return self.mul(r, z)
        v = self.cplx.ev(rest)
        if isinstance(v, tuple):
            raise Undecided("complex phase")
        return self.mul(r, self.ipow(self.unit(), v))

    def _real(self, v):
        if isinstance(v, tuple):
            raise Undecided("real value expected")
        return v

    def f_cos(self, n):
        re, im = self.reim(n.args[0])
        if im is not None:
            raise Undecided("cos of complex")
        z = self.expi(re)
        return z[0] if isinstance(z, tuple) else z

    def f_sin(self, n):
        re, im = self.reim(n.args[0])
        if im is not None:
            raise Undecided("sin of complex")
        z = self.expi(re)
        return z[1] if isinstance(z, tuple) else 0

    def f_abs(self, n):
        v = self.ev(n.args[0])
        if isinstance(v, tuple):
            return self.sqrt((v[0] * v[0] + v[1] * v[1]) % self.p)
        if self is self.ctx.main:
            return v if self.leg(v) >= 0 else -v % self.p
        from .interp import _has_I
        mv = self.ctx.main.ev(n.args[0])
        if isinstance(mv, tuple):
            return self.hval("abs", v)
        return v if self.ctx.main.leg(mv) >= 0 else -v % self.p

    def f_real(self, n):
        v = self.ev(n.args[0])
        return v[0] if isinstance(v, tuple) else v

    def f_imag(self, n):
        v = self.ev(n.args[0])
        return v[1] if isinstance(v, tuple) else 0

    def f_conj(self, n):
        v = self.ev(n.args[0])
        return (v[0], -v[1] % self.p) if isinstance(v, tuple) else v

    def f_nan_to_num(self, n):
        return self.ev(n.args[0])

    f_stopgrad = f_nan_to_num

    def f_scaled(self, n):
        return self.mul(self.ev(n.args[0]), self.ev(n.args[1]))

    def odd(self, tag, v, *extra):
        self._real(v)
        s = self.leg(v)
        if s == 0:
            return 0
        h = self.hval(tag, v if s > 0 else -v % self.p, *extra)
        return h if s > 0 else -h % self.p

    def f_arctan(self, n):
        return self.odd("arctan", self.ev(n.args[0]))

    def f_arcsin(self, n):
        return self.odd("arcsin", self.ev(n.args[0]))

    def f_arctan2(self, n):
        y, x = self.ev(n.args[0]), self.ev(n.args[1])
        self._real(y), self._real(x)
        s = self.leg(y)
        if s == 0:
            if self.leg(x) > 0:
                return 0
            return self.atom("cst:PI")
        # invariant under a common positive factor: direction of (x, |y|)
        if s < 0:
            y = -y % self.p
        h = self.hval("arctan2", x * self.inv(y) % self.p)
        return h if s > 0 else -h % self.p

    def f_mod(self, n):
        return self.opaque(n)

    # ---- logarithms ---------------------------------------------------------
    def f_log(self, n):
        return self.logv(n.args[0])

    def logv(self, n):
        if LOGMODE[0]:
            return self.logw(n)
        c, parts = ir._mon_parts(n)
        # the log of a product is the sum of the logs of the magnitudes of its factors
        c = abs(c)
        r = self.logconst(c)
        for b, e in parts.items():
            r = self.add(r, self.mul(self.fr(e), self.log1(b)))
        return r

    def logw(self, n):
        """the second sound model of the logarithm: determined by the value of everything but plain atoms"""
        r, rest, todo = 0, [], [(n, Fr(1))]
        while todo:
            b, e = todo.pop()
            if b.op == "where":
                todo.append((b.args[1] if self.ctx.truth(b.args[0]) else b.args[2], e))
            elif ir.isfn(b, "abs"):
                todo.append((b.args[0], e))
            elif b.op == "sym" and self.ctx.alias.get(b.args[0]) is not None:
                todo.append((self.ctx.alias[b.args[0]], e))
            elif ir.isfn(b, "exp"):
                # log(y^k exp(u)) = k log(y) + u
                c, terms = ir._lin_terms(expanded(self.reim(b.args[0])[0], ("fn:log",)))
                todo += [(t.args[0], e * k) for t, k in terms.items() if ir.isfn(t, "log")]
                u = ir._mk_lin(c, {t: k for t, k in terms.items() if not ir.isfn(t, "log")})
                if u is not ir.ZERO:
                    r = self.add(r, self.mul(self.fr(e), self.ev(u)))
            elif b.op in ("const", "sym", "cst"):
                r = self.add(r, self.mul(self.fr(e), self.log1(b)))
            else:
                c, parts = ir._mon_parts(b)
                if len(parts) == 1 and c == 1 and next(iter(parts)) is b:
                    rest.append((b, e))
                    continue
                r = self.add(r, self.mul(self.fr(e), self.logconst(abs(c))))
                todo += [(x, e * y) for x, y in parts.items()]
        if rest:
            t = ir.mul(*[ir.power(b, e) for b, e in rest])
            k, parts = ir._mon_parts(t)
            r = self.add(r, self.logconst(abs(k)))
            t = ir.scale(t, 1 / k)
            if not (t.op == "const"):
                r = self.add(r, self.logrest(t))
        return r

    def logconst(self, c):
        r = 0
        for v, s in ((c.numerator, 1), (c.denominator, -1)):
            for q, k in factor(v):
                r += s * k * self.atom("log:%d" % q)
        return r % self.p

    def log1(self, b):
        if b.op == "const":
            return self.logconst(abs(b.args[0]))
        if b.op == "sym":
            a = self.ctx.alias.get(b.args[0])
            if a is not None:
                return self.logv(a)
            return self.atom("log:" + b.args[0])
        if b.op == "cst":
            return self.atom("log:" + b.args[0])
        if ir.isfn(b, "exp"):
            re, im = self.reim(b.args[0])
            return self.ev(re)
        if b.op == "where":
            return self.logv(b.args[1] if self.ctx.truth(b.args[0]) else b.args[2])
        if ir.isfn(b, "abs"):
            return self.logv(b.args[0])
        return self.logrest(b)

    def logrest(self, b):
        main = self.ctx.main
        d, x0 = self.ctx_deg(b)
        if main.leg(x0) < 0:
            x0 = -x0 % main.p
        r = 0
        for a, e in d.items():
            r += self.atom("log:" + a) * self.fr(e)
        q = rational(x0, main.p)
        if q is not None and q > 0:
            r += self.logconst(q)
        else:
            r += self.hval("logrest", x0)
        return r % self.p

    def ctx_deg(self, b):
        """homogeneity degrees of b in the scale atoms, and the invariant remainder (main world)"""
        ctx, main = self.ctx, self.ctx.main
        r = ctx.deg.get(b)
        if r is not None:
            return r
        v = self._real(main.ev(b))
        x0 = v
        d = {}
        if v:
            names = set()
            for nm in ir.deps(b):
                a = ctx.alias.get(nm)
                if a is not None:
                    names |= set(ir.deps(a))
                else:
                    names.add(nm)
            for nm in sorted(names):
                base = nm.lstrip("@").split("[")[0]
                if not (nm in ctx.pos or base in ctx.pos):
                    continue
                a0 = main.atom(nm)
                t = pow(H(ctx.seed, "t", nm) % main.p, 2, main.p)
                s = pow(t, 60, main.p)
                keep_m, keep_t, keep_s, keep_d = main.memo, main.truths, main.solves, ctx.deg
                # only nodes depending on nm change; predicates keep their truth
                main.memo, main.solves, ctx.deg = {}, {}, {}
                main.truths = dict(keep_t)
                try:
                    main.atoms[nm] = a0 * s % main.p
                    w = main.ev(b)
                except Resample:
                    w = None
                finally:
                    main.atoms[nm] = a0
                    main.memo, main.truths, main.solves, ctx.deg = keep_m, keep_t, keep_s, keep_d
                if w is None or isinstance(w, tuple) or w == 0:
                    continue
                ratio = w * pow(v, -1, main.p) % main.p
                e = None
                up = dn = 1
                ti = pow(t, -1, main.p)
                for k in range(0, 721):
                    if up == ratio:
                        e = Fr(k, 60)
                        break
                    if dn == ratio:
                        e = Fr(-k, 60)
                        break
                    up = up * t % main.p
                    dn = dn * ti % main.p
                if e:
                    d[nm] = e
                    x0 = x0 * pow(main.rpow(a0, e), -1, main.p) % main.p
        r = (d, x0)
        ctx.deg[b] = r
        return r

    # ---- structured nodes -----------------------------------------------------
    def f_solve(self, n):
        i, m = n.args[0], n.args[1]
        ent = n.args[2:]
        xs = self.solves.get(ent)
        if xs is None:
            xs = self._gauss(m, [self.ev(e) for e in ent])
            self.solves[ent] = xs
        return xs[i]

    def _gauss(self, m, v):
        A = [list(v[r * m:(r + 1) * m]) + [v[m * m + r]] for r in range(m)]
        for c in range(m):
            piv = next((r for r in range(c, m) if A[r][c] != 0), None)
            if piv is None:
                raise Resample("singular matrix")
            A[c], A[piv] = A[piv], A[c]
            k = self.inv(A[c][c])
            A[c] = [self.mul(x, k) for x in A[c]]
            for r in range(m):
                if r != c and A[r][c] != 0:
                    q = self.mul(-1, A[r][c])
                    A[r] = [self.norm(self.add(x, self.mul(q, y))) for x, y in zip(A[r], A[c])]
        return [self.norm(A[r][m]) for r in range(m)]

    def f_gather(self, n):
        src, idx = n.args
        if src.op == "fn:vec":
            return self.opaque(n)
        iv = self.ctx.main.ev(idx)
        c = idx.args[0] if idx.op == "const" else None
        tag = str(c) if c is not None else "%x" % (H(iv) % (1 << 80))
        m = {ir.sym(d): ir.sym(d + "[" + tag + "]") for d in ir.deps(src) if d.startswith("@") and "[" not in d}
        return self.ev(ir.subst(src, m))

    def lanes(self, n, k):
        ds = [d for d in ir.deps(n) if d.startswith("@") and "[" not in d]
        out = []
        # reductions over the whole array are the same for every entry
        closed = {x: x for x in ir.topo([n]) if x is not n and x.op in CLOSED}
        for j in range(k):
            m = {**closed, **{ir.sym(d): ir.sym(d + "[lane%d]" % j) for d in ds}}
            out.append(self.ev(ir.subst(n, m)))
        return out

    def f_argmin(self, n):
        if n.args[0].op == "fn:vec" or not any(d.startswith("@") for d in ir.deps(n.args[0])):
            return self.opaque(n)
        a, b, c = self.lanes(n.args[0], 3)
        # invariant under a common positive factor; argmin(-x) differs from argmin(x)
        if a == 0 or b == 0:
            raise Resample("zero lane")
        return self.hval(n.op, self.mul(a, self.inv(b)), self.mul(c, self.inv(b)), self.leg(self._real(b)))

    f_argmax = f_argmin

    def f_sum(self, n):
        if not any(d.startswith("@") for d in ir.deps(n.args[0])):
            return self.opaque(n)
        s = 0
        for v in self.lanes(n.args[0], 3):
            s = self.add(s, v)
        return s

    def f_max(self, n):
        # the largest entry: a symmetric function of the entries, homogeneous of degree one
        if not any(d.startswith("@") for d in ir.deps(n.args[0])):
            return self.opaque(n)
        body = n.args[0]
        fts = [m for m in ir.topo([body]) if m.op == "fn:ifft"]
        if fts:
            out = [self.ev(ir.subst(body, {m: ir.fn("ifftlane", ir.const(j - 1), *m.args) for m in fts})) for j in range(3)]
        else:
            out = self.lanes(body, 3)
        if any(isinstance(v, tuple) for v in out):
            return self.opaque(n)
        t = sum(out) % self.p
        if t == 0:
            raise Resample("zero sum")
        k = self.inv(t)
        return t * self.hval(n.op, sorted(v * k % self.p for v in out)) % self.p

    f_min = f_max

    def f_ifftlane(self, n):
        # one output of the inverse transform: a sum over the inputs with unit weights, divided by their number
        j, x = int(n.args[0].args[0]), n.args[1]
        parts = x.args if x.op == "fn:concat" else (x,)
        s = 0
        for i, q in enumerate(parts):
            for k, v in enumerate(self.lanes(q, 3) if any(d.startswith("@") for d in ir.deps(q)) else [self.ev(q)]):
                if j:
                    t = self.hval("fourier", abs(j), i, k)
                    d = self.inv((1 + t * t) % self.p)
                    v = self.mul(v, ((1 - t * t) * d % self.p, 2 * t * d * (1 if j > 0 else -1) % self.p))
                s = self.add(s, v)
        return self.mul(s, self.inv(self.ev(ir.fn("len", x))))

    def f_len(self, n):
        x = n.args[0]
        if x.op == "fn:concat":
            return sum(self.ev(ir.fn("len", q)) for q in x.args) % self.p
        if x.op == "fn:vec":
            return len(x.args) % self.p
        cut = sorted({m.op + ":" + str(m.args[1:]) for m in ir.topo([x]) if m.op in ("fn:slice", "fn:mask", "fn:diffarr", "fn:concat", "fn:fft")})
        ds = sorted({d.split("[")[0] for d in ir.deps(x) if d.startswith("@")})
        if "@f" in ds or any(d in ("@z:h1", "@z:h2", "@Sn") for d in ds):
            ds = ["@f"]          # arrays over one grid have its length
        return self.atom("len:" + ",".join(ds + cut))

    def f_vec(self, n):
        return self.hval("vec", tuple(self.ev(a) if ir.deps(a) else a.id for a in n.args))

    def f_filled(self, n):
        return self.ev(n.args[1])

    def f_boolext(self, n):
        return 1 if self.ctx.truth(n) else 0


ANGLES = ("fn:arctan2", "fn:arctan", "fn:arccos", "fn:arcsin", "fn:mod", "fn:abs")
_exp = {}
_piece = {}


def has_piece(n):
    """a selection that is reached through sums and products only"""
    if n.op == "where":
        return True
    if n.op not in ("lin", "mon"):
        return False
    r = _piece.get(n)
    if r is None:
        r = _piece[n] = any(has_piece(t) for t, _ in (n.args[1] if n.op == "lin" else n.args))
    return r


def expanded(n, ops):
    """products over sums with a term in `ops` multiplied out, so that an exponent is split the same
    way however its polynomial is nested"""
    key = (n, ops[0])
    r = _exp.get(key)
    if r is not None:
        return r

    def at_top(b):
        return b.op in ops or b.op == "lin" and any(at_top(t) for t, _ in b.args[1]) \
            or b.op == "mon" and any(e > 0 and e.denominator == 1 and at_top(y) for y, e in b.args)
    r = n
    if n.op == "lin" and any(t.op == "mon" and at_top(t) for t, _ in n.args[1]):
        r = ir.add(ir.const(n.args[0]), *[ir.scale(expanded(t, ops), k) for t, k in n.args[1]])
    elif n.op == "mon" and at_top(n):
        sums = [(expanded(y, ops), int(e)) for (y, e) in n.args
                if y.op == "lin" and e > 0 and e.denominator == 1 and e <= 8 and at_top(y)]
        if sums:
            acc = [ir.mul(*[ir.power(y, e) for (y, e) in n.args
                            if not (y.op == "lin" and e > 0 and e.denominator == 1 and e <= 8 and at_top(y))])]
            for y, e in sums:
                c, t = ir._lin_terms(y)
                ts = [ir.const(c)] * (c != 0) + [ir.scale(a, k) for a, k in t.items()]
                for _ in range(e):
                    acc = _collect([ir.mul(a, b) for a in acc for b in ts])
                    if len(acc) > 4000:
                        raise Undecided("exponent too large to expand")
            r = ir.add(*[expanded(a, ops) if a is not n else a for a in acc])
    _exp[key] = r
    return r


def turns(n):
    """pi (c + ...) in an angle is multiplied out: the whole turns in it do not count"""
    from .interp import PI
    c, terms = ir._lin_terms(n)
    out = None
    for t, k in terms.items():
        if t.op == "mon" and dict(t.args).get(PI) == 1 and all(
                y is PI or y.op == "lin" and y.args[0] != 0 and e > 0 and e.denominator == 1 for y, e in t.args):
            if out is None:
                out = dict(terms)
            del out[t]
            rest = ir.mul(*[ir.power(y, e) for y, e in t.args if y is not PI])
            m = ir.const(1)
            for y, e in t.args:
                if y is not PI:
                    m = ir.scale(m, y.args[0] ** int(e))
            for a in (ir.mul(PI, m), ir.mul(PI, ir.sub(rest, m))):
                c2, t2 = ir._lin_terms(ir.scale(a, k))
                for y, q in t2.items():
                    out[y] = out.get(y, 0) + q
    return n if out is None else ir._mk_lin(c, {y: q for y, q in out.items() if q})


def _collect(ts):
    c, d = ir._lin_terms(ir.add(*ts))
    return [ir.const(c)] * (c != 0) + [ir.scale(a, k) for a, k in d.items()]


def period(y, k):
    """is k*y a multiple of 2 pi?"""
    from .interp import PI
    q = ir.div(ir.scale(y, k), PI)
    return q.op == "const" and (q.args[0] / 2).denominator == 1


_fac = {}


def factor(n):
    if n in _fac:
        return _fac[n]
    out, m, q = [], n, 2
    while q * q <= m and q < 20000:
        k = 0
        while m % q == 0:
            m //= q
            k += 1
        if k:
            out.append((q, k))
        q += 1
    if m > 1:
        out.append((m, 1))
    _fac[n] = out
    return out


def rational(v, p, bound=1 << 40):
    """small rational with this residue, or None"""
    a, b = p, v % p
    s, t = 0, 1
    while b > bound:
        q = a // b
        a, b = b, a - q * b
        s, t = t, s - q * t
    if b == 0 or abs(t) > bound:
        return None
    if t < 0:
        b, t = -b, -t
    return Fr(b, t)


def costs(roots, alias=None):
    """number of IR nodes that depend on each atom"""
    c = {}
    for n in ir.topo(list(roots) + list((alias or {}).values())):
        for d in ir.deps(n):
            c[d] = c.get(d, 0) + 1
    return c


def samples(roots, n, seed0=1, pos=(), constraints=None, alias=None, gates=None):
    """n generic evaluations of the roots: yields (ctx, [values]); raises Undecided"""
    cost = costs(roots, alias)
    for s in range(seed0, seed0 + n):
        c = Ctx(s, pos, constraints, alias=alias, gates=gates)
        yield c, c.settle(roots, cost)


def is_zero(n, env, k=3):
    """does the value number vanish in k generic samples (False when it cannot be evaluated)?"""
    if n is ir.ZERO:
        return True
    try:
        for _, (v,) in samples([n], k, 71, env.pos, env.cons):
            if v != 0:
                return False
    except Undecided:
        return False
    return True
