#!/usr/bin/env python3
"""Decide one property on the current tree:  check.py <ID> [--tier quick|thorough] [--root /repo]"""
import ctypes
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def main():
    import argparse
    import threading
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--root", default="/repo")
    a = ap.parse_args()
    rc, box = [3], []
    from sa.check import Slow

    def run():
        import importlib
        from sa import check
        mod = importlib.import_module("specs." + a.pid)
        c = check.Check(a.pid, a.tier, a.root)
        c.klist = check.load_known(os.path.join(HERE, "known_findings.json")).get(a.pid, [])
        box.append(c)
        mod.run(c)
        rc[0] = c.report(os.path.join(HERE, "evidence"), "python3 check.py %s --tier %s" % (a.pid, a.tier), mod.RULE, mod.TRUST)
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=run)
    t.start()
    while t.is_alive():
        t.join(2)
        c = box[0] if box else None
        if c is not None and c.started and time.time() - c.started > c.scen_limit:
            c.started = None
            ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident), ctypes.py_object(Slow))
    sys.stdout.flush()
    os._exit(rc[0])


if __name__ == "__main__":
    main()
