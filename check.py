#!/usr/bin/env python3
"""check.py ID            decide property ID (tier from VERIF_TIER, seed from VERIF_SEED)
   check.py --replay FILE   run a recorded violation again"""
import json, os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import fw, props


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == '--replay':
        return props.replay(sys.argv[2])
    prop = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    fn, level = props.CHECKS[prop]
    ctx = fw.Ctx(prop, tier, seed, level)
    try:
        fn(ctx)
    except fw.Broken as e:
        print('cannot build or run the tree: %s' % e)
        if not ctx.viol:
            ctx.note('broken: %s' % str(e)[:500])
            ctx.finish()
            return 2
    return ctx.finish()


if __name__ == '__main__':
    sys.exit(main())
