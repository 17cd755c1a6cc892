#!/usr/bin/env python3
"""Entry point of every check: check.py <property id>."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import common

def main():
    pid = sys.argv[1]
    mod = importlib.import_module("checks." + pid.lower())
    ck = common.Check(pid)
    try:
        mod.main(ck)
    except common.InfraError as e:
        ck.log("infrastructure error:", e)
        if ck.violations:
            sys.exit(ck.finish())
        sys.exit(3)
    except Exception:
        traceback.print_exc()
        sys.exit(ck.finish() if ck.violations else 3)
    sys.exit(ck.finish())

if __name__ == "__main__":
    main()
