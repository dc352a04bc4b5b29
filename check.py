#!/usr/bin/env python3
"""check.py <property id>: decide one property (see DESIGN.md)."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "props"))
sys.dont_write_bytecode = True
import vlib


def main():
    pid = sys.argv[1]
    mod = importlib.import_module(pid.lower())
    ctx = vlib.Ctx(pid, getattr(mod, "LEVEL", "model_checking"))
    try:
        mod.check(ctx)
        rc = ctx.finish()
    except vlib.CheckError as e:
        print("CHECK ERROR: %s" % e)
        rc = 3
        if ctx.violations:
            rc = ctx.finish()
    except Exception:
        traceback.print_exc()
        rc = 3
        if ctx.violations:
            rc = ctx.finish()
    finally:
        if not os.environ.get("VERIF_KEEP"):
            ctx.close()
        else:
            print("kept", ctx.work)
    sys.exit(rc)


main()
