#!/usr/bin/env python3
"""python3 check.py <property> runs the check of a property (VERIF_SEED,
VERIF_TIER); python3 check.py setup builds everything once."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import run, vb


def main():
    if len(sys.argv) != 2:
        print(__doc__); return 2
    pid = sys.argv[1]
    from vlib import libchecks
    mods = [libchecks]
    for m in ("toolchecks", "pychecks"):
        if os.path.exists(os.path.join(vb.VERIF, "vlib", m + ".py")):
            mods.append(__import__("vlib." + m, fromlist=[m]))
    vb.prune()
    if pid == "setup":
        for m in mods:
            if hasattr(m, "setup"):
                m.setup()
        return 0
    libchecks.ALL[:] = [x for x in libchecks.ALL if vb.have(x)]
    for m in mods:
        f = getattr(m, pid, None)
        if f:
            try:
                return f()
            except Exception:
                c = run.Check.last
                if c is None:
                    raise
                c.error(traceback.format_exc())     # what was found before still counts
                return c.finish()
    print("no such property: " + pid, file=sys.stderr)
    return 2


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush(); sys.stderr.flush()
    os._exit(rc)
