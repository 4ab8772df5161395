import argparse
import ctypes
import os
import sys
import threading
import time


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from . import core, props, meta
    fn = props.CHECKS.get(a.pid)
    if fn is None:
        print("unknown property", a.pid)
        sys.exit(2)
    core.META_EXPLAIN.update({k: v["explain"] for k, v in meta.PROPS.items()})
    rc = [2]

    def go():
        rc[0] = core.run(a.pid, a.tier, seed, fn)
    sys.setrecursionlimit(1000000)
    threading.stack_size(1 << 30)
    t = threading.Thread(target=go)
    t.start()
    t.join(max(1.0, core.DEADLINE + 30 - time.time()))
    while t.is_alive():
        # too long: give up on what is not decided yet
        ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident), ctypes.py_object(core.OutOfTime))
        t.join(60)
    sys.stdout.flush()
    os._exit(rc[0])


main()
