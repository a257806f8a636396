#!/usr/bin/env python3
"""python3 check.py C01 [--tier quick|thorough] [--seed N] [--keep]"""
import argparse, importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib


def main():
    a = argparse.ArgumentParser()
    a.add_argument("prop")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a.add_argument("--keep", action="store_true")
    o = a.parse_args()
    c = vlib.Check(o.prop, "thorough" if o.tier == "thorough" else "quick", o.seed, o.keep)
    mod = importlib.import_module("checks." + o.prop.lower())
    try:
        mod.run(c)
    except vlib.DriverDied as e:
        if e.by_code:
            c.violation(f"the code crashed: {e.err[-3000:]}", dict(command=e.cmd, item=e.item))
        else:
            vlib.log("BROKEN:", e)
            if not c.violations:
                return 3
    except vlib.Broken as e:
        vlib.log("BROKEN:", e)
        if not c.violations:
            return 3
    except Exception:
        traceback.print_exc()
        if not c.violations:
            return 3
    return c.finish()


sys.exit(main())
