#!/usr/bin/env python3
"""check.py <property id>: decides one property; see DESIGN.md."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from vlib import ToolError

def main():
    pid = sys.argv[1]
    try:
        import importlib
        mod = importlib.import_module("p_" + pid.lower())
        chk = vlib.Check(pid, getattr(mod, "LEVEL", "model_checking"))
        try:
            mod.check(chk)
        except vlib.Crash as c:
            # no behaviour of the specification ends without the answer
            vlib.log(f"the code under test crashed: {c.what} in {c.stack[:1]}")
            chk.violation("crash " + " ".join(c.stack[:1]), {"crash": c.what, "command": c.cmd, "stack": c.stack})
        chk.finish()
    except ToolError as e:
        print("TOOL ERROR:", e, file=sys.stderr)
        sys.exit(2)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)

main()
