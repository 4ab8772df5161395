"""Stored reference models: value graphs of the published waveform models without their final cutoff.

A file holds one node per line, children first: [op, ...].  tools/mkref.py writes them from a tree that
agreed with LALSimulation, tools/valref.py evaluates them numerically and compares them with LALSimulation."""
import gzip
import json
import os
from fractions import Fraction as Fr
from . import ir
from .ir import Node

DIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "reference")


def dump(roots, path):
    order = ir.topo(roots)
    num = {n: i for i, n in enumerate(order)}
    with gzip.GzipFile(path, "wb", mtime=0) as fh:
        for n in order:
            if n.op == "const":
                r = ["const", str(n.args[0])]
            elif n.op == "lin":
                r = ["lin", str(n.args[0]), [[num[a], str(v)] for a, v in n.args[1]]]
            elif n.op == "mon":
                r = ["mon", [[num[a], str(e)] for a, e in n.args]]
            else:
                r = [n.op, [num[a] if isinstance(a, Node) else {"s": a} if isinstance(a, str) else {"i": a} if isinstance(a, int) else {"q": str(a)} for a in n.args]]
            fh.write((json.dumps(r, separators=(",", ":")) + "\n").encode())
        fh.write((json.dumps(["roots", [num[r] for r in roots]]) + "\n").encode())


def load(name):
    out = []
    with gzip.open(os.path.join(DIR, name + ".ir.gz"), "rt") as fh:
        for line in fh:
            r = json.loads(line)
            op = r[0]
            if op == "roots":
                return [out[i] for i in r[1]]
            if op == "const":
                n = ir.const(Fr(r[1]))
            elif op == "lin":
                n = ir.add(ir.const(Fr(r[1])), *[ir.scale(out[i], Fr(v)) for i, v in r[2]])
            elif op == "mon":
                n = ir.mul(*[ir.power(out[i], Fr(e)) for i, e in r[1]])
            else:
                args = tuple(out[a] if isinstance(a, int) else a.get("s", a.get("i", Fr(a["q"]) if "q" in a else None)) for a in r[1])
                t = ir.mk(op, args)
                n = ir.rebuild(t, {a: a for a in args if isinstance(a, Node)}) if op not in ("sym", "cst", "I", "inf", "nan", "bool") else t
            out.append(n)
    raise ValueError("truncated reference file")
