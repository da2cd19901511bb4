#!/usr/bin/env python3
"""run_check.py <PROPERTY> [--tier quick|thorough]"""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'checks'))
sys.dont_write_bytecode = True
import core


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    mod = importlib.import_module(prop.lower())
    ck = core.Check(prop, tier)
    try:
        mod.run(ck)
    except core.CheckError as e:
        print('CHECK-ERROR %s: %s' % (prop, e))
        if ck.violations:
            sys.exit(ck.finish())
        import shutil
        shutil.rmtree(ck.scratch, ignore_errors=True)
        sys.exit(3)
    except Exception:
        traceback.print_exc()
        if ck.violations:
            sys.exit(ck.finish())
        sys.exit(3)
    sys.exit(ck.finish())


main()
