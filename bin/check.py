#!/usr/bin/env python3
"""check.py PROPERTY - run the check of one property (VERIF_TIER, VERIF_SEED from the environment)."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib  # noqa: E402

MODULES = ["parsing", "trees", "registry", "macros", "yewssr", "dom", "apps"]


def main():
    prop = sys.argv[1]
    for m in MODULES:
        try:
            mod = importlib.import_module(m)
        except ModuleNotFoundError as e:
            if e.name != m:
                raise
            continue
        f = mod.CHECKS.get(prop)
        if f:
            break
    else:
        print("no check for", prop)
        return 2
    rep = vlib.Report(prop)
    try:
        f(rep)
    except vlib.NoAnswer as e:
        print("NO ANSWER:", e)
        if rep.bad:
            return rep.finish()
        return 2
    except vlib.Died as e:
        # A driver ends by itself unless the code it runs makes it die; a killed or slow one says nothing.
        if "exit -9" not in str(e) and "timeout" not in str(e):
            rep.violation("the process under observation died: %s" % e, {"observed": str(e)})
        else:
            print("NO ANSWER:", e)
        return rep.finish() if rep.bad else 2
    except Exception:
        traceback.print_exc()
        if rep.bad:
            return rep.finish()
        return 2
    return rep.finish()


sys.exit(main())
