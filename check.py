#!/usr/bin/env python3-vt
import sys, os, importlib, traceback
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(H, 'engine')); sys.path.insert(0, os.path.join(H, 'checks'))
sys.setrecursionlimit(20000)
import fw, absint
from registry import CHECKS
def main():
    pid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' and '--quick' not in sys.argv else 'quick'
    mod, fn = CHECKS[pid]
    absint.EXACT = pid in ('P14', 'P15', 'P26')     # their promises are about quantities wider than 32 bits
    ctx = fw.Ctx(pid, tier)
    try:
        importlib.import_module('effects').effects(ctx)
        getattr(importlib.import_module(mod), fn)(ctx)
    except fw.AnalysisError as ex:
        if ctx.viol:
            print('note: analysis stopped early: %s' % ex)
            return ctx.finish()
        print('ANALYSIS-ERROR property=%s %s' % (pid, ex)); return 2
    except Exception:
        if not ctx.viol: raise
        # a construct already reported may leave a later step without what it looks for
        print('note: analysis stopped early:'); traceback.print_exc()
        return ctx.finish()
    return ctx.finish()
if __name__ == '__main__':
    try: rc = main()
    except Exception:
        traceback.print_exc(); rc = 2
    sys.stdout.flush(); os._exit(rc)
