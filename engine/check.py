#!/usr/bin/env python3-vt
"""Decides one property: engine/check.py <id> [--replay <file>]."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import common as K


def main():
    prop = sys.argv[1]
    code = 2
    try:
        import registry
        level, fn = registry.lookup(prop)
        R = K.Result(prop, level)
        try:
            fn(prop, R)
        except K.CheckError as e:
            R.error(str(e))
        if '--replay' in sys.argv:
            for v in R.violations:
                print(f"replayed {v['key']}: {v['what']}")
        code = R.finish()
    except Exception:
        traceback.print_exc()
        code = 2
    finally:
        K.cleanup()
    sys.stdout.flush()
    sys.exit(code)


main()
