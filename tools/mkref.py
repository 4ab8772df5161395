"""Write reference/<model>.ir.gz from the current tree (only ever run on a tree validated against LALSimulation)."""
import os, sys, threading
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(1000000)
threading.stack_size(1 << 30)


def main():
    from ripplecheck import ir, refmodel
    from ripplecheck.bench import bench, BYNAME, ALL
    from ripplecheck.regions import L
    b = bench()
    for name in ("IMRPhenomD", "IMRPhenomXAS", "IMRPhenomPv2"):
        m = BYNAME[name]
        r = b.hphc(m)
        rg = b.regions(m)
        # remove the final cutoff: it is decided separately
        roots = list(r)
        bd = rg.cr.bound(None) if False else None
        from ripplecheck.regions import settle
        from ripplecheck.bench import BASE
        bd = settle(rg.reg, rg.cr.roots, 1, BASE)
        g = {}
        for i in rg.cut:
            g.update({n: (ir.TRUE if t else ir.FALSE) for n, t in bd.gates({bd.names[i]: L}).items()})
        roots = ir.lift(roots, "f")
        roots = ir.subst_many(roots, g)
        p = os.path.join(refmodel.DIR, name + ".ir.gz")
        refmodel.dump(roots, p)
        back = refmodel.load(name)
        print(name, len(ir.topo(roots)), os.path.getsize(p), back == roots, sorted(set().union(*[ir.deps(x) for x in roots])))


t = threading.Thread(target=main); t.start(); t.join()
