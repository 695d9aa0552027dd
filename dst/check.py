#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE] ..."""
import argparse
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dst import engine                                      # noqa: E402

ap = argparse.ArgumentParser()
ap.add_argument('prop', nargs='?')
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
ap.add_argument('--replay')
ap.add_argument('--runs', type=int)
ap.add_argument('--workers', type=int)
ap.add_argument('--budget', type=float)
ap.add_argument('--hashseed', default='0')
ap.add_argument('--dump')
a = ap.parse_args()
try:
    if a.replay:
        rc = engine.replay_file(a.replay)
    else:
        rc = engine.main(a.prop, a.tier, a.seed, a.workers, a.runs, a.budget, a.hashseed, a.dump)
except SystemExit:
    raise
except BaseException:
    import traceback
    traceback.print_exc()
    rc = 2
sys.stdout.flush()
sys.exit(rc)
