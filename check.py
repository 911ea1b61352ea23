#!/usr/bin/env python3
"""python3 check.py <property id>: decide one property (see MANIFEST.json)."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
sys.dont_write_bytecode = True
import vlib

def main():
    prop = sys.argv[1]
    if prop == "--setup":           # nothing to install; warm the build cache
        vlib.Ctx("setup").build_driver()
        return 0
    ctx = vlib.Ctx(prop)
    try:
        mod = importlib.import_module(prop.lower())
        mod.run(ctx)
    except vlib.Broken as e:
        if ctx.violations:          # what the real code did stands
            return ctx.finish()
        print("ERROR property=%s: %s" % (prop, e))
        return 3
    except Exception:
        traceback.print_exc()
        return 3
    return ctx.finish()

if __name__ == "__main__":
    sys.exit(main())
