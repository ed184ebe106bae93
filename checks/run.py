#!/usr/bin/env python3
"""run.py <property id>: the check of one property (tier and seed from the environment)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import kv

def table():
    import sig
    t = {}
    t.update(sig.CHECKS)
    for m in ("sigconc", "res", "path", "serde", "binrw", "misc", "reflect"):
        try:
            mod = __import__(m)
        except ModuleNotFoundError as e:
            if e.name != m:
                raise
            continue
        t.update(mod.CHECKS)
    return t

if __name__ == "__main__":
    pid = sys.argv[1]
    kv.main(pid, table()[pid])
