#!/usr/bin/env python3
"""check.py PROPERTY: decide one property; see DESIGN.md."""
import importlib
import os
import sys
import traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    import checks
    ck = vlib.Check(prop, tier, seed)
    try:
        getattr(checks, prop)(ck)
        rc = ck.finish()
    except vlib.ToolError as e:
        if ck.violations:     # what was found stands
            rc = ck.finish()
        else:
            print('ERROR: %s' % e)
            rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        ck.close()
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == '__main__':
    main()
