"""Run the concrete contract oracle of a property, or replay one input.

  run.py C01 --tier quick --seed 1 --out FILE
  run.py --replay FILE
Exit status: 0 no violation, 1 violation.
"""
import os
import sys
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import argparse
import glob
import importlib
import json
import warnings
warnings.simplefilter('ignore')
from oracle import frame


def load():
    here = os.path.dirname(os.path.abspath(__file__))
    for f in sorted(glob.glob(os.path.join(here, 'c_*.py'))):
        importlib.import_module('oracle.' + os.path.basename(f)[:-3])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--budget', type=float, default=60)
    ap.add_argument('--out')
    ap.add_argument('--replay')
    ap.add_argument('--case')
    a = ap.parse_args()
    load()
    if a.replay:
        r = json.load(open(a.replay))
        if 'case' not in r:
            print('the replay file names a failed obligation, no input')
            return 0
        c = [c for c in frame.CASES[r['property']] if c['name'] == r['case']][0]
        st, txt = frame.run_one(r['property'], c, r['seed'], r['index'])
        print(st, txt)
        return 1 if st == 'violation' else 0
    if a.case:
        frame.CASES[a.prop] = [c for c in frame.CASES[a.prop] if c['name'] == a.case]
    agg = frame.run_prop(a.prop, a.tier, a.seed, a.budget)
    if a.out:
        json.dump(agg, open(a.out, 'w'), indent=1)
    else:
        print(json.dumps(agg, indent=1)[:6000])
    return 1 if agg['violations'] else 0


if __name__ == '__main__':
    sys.exit(main())
