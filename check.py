#!/usr/bin/env python3
"""check.py <property> : decides one property on /repo's working tree.

VERIF_TIER (quick, thorough) and VERIF_SEED are read from the environment.
Exit 0: held on everything explored. 1: VIOLATION. 2: error of the check."""
import importlib
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                'harness'))
import lib    # noqa: E402

MODULES = ['checks_pipeline', 'checks_distance', 'checks_misc', 'checks_io',
           'checks_load', 'checks_files', 'checks_gen', 'checks_tree',
           'checks_conc', 'checks_chain']


def find(prop):
    for m in MODULES:
        if os.path.exists(os.path.join(lib.HARNESS, m + '.py')):
            f = getattr(importlib.import_module(m), prop, None)
            if f is not None:
                return f
    raise lib.Machinery('no check for %s' % prop)


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED') or 1)
    ctx = lib.Context(prop, tier, seed)
    try:
        lib.build(ctx)
        assumptions = find(prop)(ctx)
        return lib.finish(ctx, 'model_checking', assumptions)
    except lib.Machinery as e:
        print('ERROR of the check: %s' % e)
        return 2
    except Exception:
        traceback.print_exc(file=sys.stdout)
        return 2
    finally:
        ctx.close()


if __name__ == '__main__':
    sys.exit(main())
