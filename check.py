#!/usr/bin/env python3
"""python3 check.py <property id>   -- decide one property on /repo's current source"""
import importlib
import os
import sys
import traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from omgcheck import core
    try:
        mod = importlib.import_module('omgcheck.props.' + pid.lower())
        ctx = core.Ctx(pid, tier, seed)
        floor = mod.run(ctx)
        return ctx.finish(floor or getattr(mod, 'FLOOR', 1))
    except core.AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s internal error' % pid)
        return 2


if __name__ == '__main__':
    sys.exit(main())
