#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's current tree. exit 0 held, 1 violated, 2 analysis broken"""
import os, sys, time, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sa import frontend, db, report

def main():
    prop = sys.argv[1]
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
    ctx = report.Ctx(prop, None, tier)
    err = None
    try:
        mod = importlib.import_module('sa.rules.' + prop.lower())
        ctx.prog = db.program()
        parts = mod.check(ctx)
    except frontend.AnalysisError as e:
        err = str(e)
    except Exception:
        err = traceback.format_exc()
    rc = report.finish(ctx, seed, t0, err)
    sys.stdout.flush()
    os._exit(rc)

if __name__ == '__main__':
    main()
