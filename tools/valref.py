"""Evaluate the stored reference models numerically and compare with LALSimulation and with the package (needs /opt/venv)."""
import os, sys, math, threading
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(1000000)
threading.stack_size(1 << 30)
import numpy as np
from scipy.interpolate import CubicSpline


def evaluate(roots, env):
    from ripplecheck import ir
    from ripplecheck.interp import REF
    v = {}
    cache = {}
    for n in ir.topo(roots):
        a = [v[x] for x in ir.children(n)]
        op = n.op
        if op == "const": r = np.longdouble(n.args[0].numerator) / np.longdouble(n.args[0].denominator)
        elif op == "sym": r = np.asarray(env[n.args[0]], dtype=np.longdouble)
        elif op == "cst": r = np.longdouble(float(REF[n.args[0]]))
        elif op == "I": r = 1j
        elif op == "lin":
            r = float(n.args[0])
            for (_, k), x in zip(n.args[1], a): r = r + float(k) * x
        elif op == "mon":
            r = 1.0
            for (_, e), x in zip(n.args, a): r = r * np.power(x, int(e) if e.denominator == 1 else np.longdouble(e.numerator) / e.denominator) if e > 0 or e.denominator > 1 else r / np.power(x, -int(e))
        elif op == "lt": r = a[0] < a[1]
        elif op == "le": r = a[0] <= a[1]
        elif op == "eq": r = a[0] == a[1]
        elif op == "not": r = np.logical_not(a[0])
        elif op == "and": r = np.logical_and(*a)
        elif op == "bool": r = n.args[0]
        elif op == "where": r = np.where(*a)
        elif op == "fn:linspace": r = np.linspace(a[0], a[1], int(a[2]), endpoint=bool(a[3]))
        elif op == "fn:vec": r = np.array(a)
        elif op == "fn:spline": r = CubicSpline(a[1].astype(float), a[2].astype(float))(np.asarray(a[0], dtype=float))
        elif op == "fn:interp": r = np.interp(np.asarray(a[0], dtype=float), a[1].astype(float), a[2].astype(float))
        elif op == "fn:solve":
            k = (n.args[1],) + n.args[2:]
            if k not in cache:
                m = int(n.args[1]); e = a if len(a) == m * m + m else [v[x] for x in n.args[2:]]
                cache[k] = np.linalg.solve(np.array(e[:m * m], dtype=float).reshape(m, m), np.array(e[m * m:], dtype=float))
            r = cache[k][int(n.args[0])]
        elif op in ("fn:abs", "fn:exp", "fn:log", "fn:cos", "fn:sin", "fn:arctan", "fn:arccos", "fn:arctan2"):
            r = getattr(np, op[3:])(*a)
        else:
            raise ValueError(op)
        v[n] = r
    return [v[r] for r in roots]


def main():
    os.environ["JAX_ENABLE_X64"] = "1"
    import jax
    jax.config.update("jax_enable_x64", True)
    import jax.numpy as jnp, lal, lalsimulation as ls
    from ripplecheck import refmodel
    from ripplegw import ms_to_Mc_eta
    from ripplegw.waveforms import IMRPhenomD, IMRPhenomXAS, IMRPhenomPv2
    rng = np.random.default_rng(int(sys.argv[1]) if len(sys.argv) > 1 else 0)
    worst = {}
    for name in ("IMRPhenomD", "IMRPhenomXAS", "IMRPhenomPv2"):
        ref = refmodel.load(name)
        for k in range(12):
            m1 = rng.uniform(10, 60); m2 = m1 * rng.uniform(.15, .99)
            Mt, de = m1 + m2, (m1 - m2) / (m1 + m2)
            D, inc, phi, fref = rng.uniform(50, 500), rng.uniform(0, np.pi), rng.uniform(0, 6), rng.uniform(15, 60)
            f = np.linspace(15, 0.19 / (Mt * 4.925491e-6), 3000)
            if name == "IMRPhenomPv2":
                p1, p2 = rng.uniform(0, .5, 2); a1, a2 = rng.uniform(0, 6, 2); z1, z2 = rng.uniform(-.6, .6, 2)
            else:
                p1 = p2 = a1 = a2 = 0.; z1, z2 = rng.uniform(-.8, .8, 2)
            env = dict(f=f, M=Mt, delta=de, chi1=z1, chi2=z2, s1z=z1, s2z=z2, s1p=p1, s2p=p2, a1=a1, a2=a2, D=D, tc=0., phic=phi, phiRef=phi, incl=inc, f_ref=fref)
            r = evaluate(ref, env)
            s = lal.CreateREAL8Sequence(len(f)); s.data = f
            w = ls.SimInspiralChooseFDWaveformSequence(phi, m1 * lal.MSUN_SI, m2 * lal.MSUN_SI, p1 * np.cos(a1), p1 * np.sin(a1), z1, p2 * np.cos(a2), p2 * np.sin(a2), z2, fref, D * 1e6 * lal.PC_SI, inc, lal.CreateDict(), ls.GetApproximantFromString(name), s)
            Mc, eta = ms_to_Mc_eta(jnp.array([m1, m2]))
            if name == "IMRPhenomPv2":
                c = IMRPhenomPv2.gen_IMRPhenomPv2(jnp.array(f), jnp.array([m1, m2, p1 * np.cos(a1), p1 * np.sin(a1), z1, p2 * np.cos(a2), p2 * np.sin(a2), z2, D, 0., phi, inc]), fref)
            else:
                mod = {"IMRPhenomD": IMRPhenomD, "IMRPhenomXAS": IMRPhenomXAS}[name]
                c = getattr(mod, "gen_%s_hphc" % name)(jnp.array(f), jnp.array([Mc, eta, z1, z2, D, 0., phi, inc]), fref)
            for x, y, z in zip(r, (w[0].data.data, w[1].data.data), c):
                x, y, z = (np.asarray(q) for q in (x, y, z))
                nn = np.sqrt(np.vdot(x, x).real * np.vdot(y, y).real)
                worst.setdefault(name, []).append((np.abs(x - y).max() / np.abs(y).max(), 1 - np.vdot(x, y).real / nn, np.abs(x - z).max() / np.abs(z).max()))
        a = np.array(worst[name])
        print("%s: %d comparisons, largest relative deviation from LAL %.2g (mismatch %.2g), from the package %.2g" % (name, len(a), *a.max(0)))


if __name__ == "__main__":
    t = threading.Thread(target=main); t.start(); t.join()
