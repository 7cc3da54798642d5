#!/usr/bin/env python3
"""check.py <property> [--thorough]: decides one property on /repo's working tree."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import lib

def main():
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv[2:] else "quick"
    os.environ["VERIF_TIER"] = tier
    mod = importlib.import_module("checks." + prop.lower())
    chk = lib.Check(prop, tier, getattr(mod, "LEVEL", "model_checking"))
    chk.assumptions = list(getattr(mod, "ASSUMPTIONS", []))
    try:
        mod.run(chk)
        if tier == "thorough" and not chk.violations: lib.dialect(chk)
    except lib.CheckError as e:
        if chk.violations:
            return chk.finish()
        print(f"ERROR property={prop}: {e}", file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        if chk.violations:
            return chk.finish()
        return 2
    return chk.finish()

if __name__ == "__main__":
    sys.exit(main())
