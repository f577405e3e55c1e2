#!/usr/bin/env python3-vt
import sys, os, argparse, subprocess
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
ap = argparse.ArgumentParser()
ap.add_argument('pid')
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
ap.add_argument('--baseline', action='store_true')
a = ap.parse_args()
if not os.path.exists(os.path.join(V, 'build', 'cxx2ir')) or os.path.getmtime(os.path.join(V, 'tool', 'cxx2ir.cpp')) > os.path.getmtime(os.path.join(V, 'build', 'cxx2ir')):
    subprocess.run(['bash', os.path.join(V, 'setup.sh')], check=True)
from gpv import checker
c = checker.Check(a.pid, a.tier, a.seed)
rc = c.run()
if a.baseline:
    import json
    os.makedirs(os.path.join(V, 'props', 'baseline'), exist_ok=True)
    json.dump({s.name: [(k, f['name']) for o, k, f in getattr(s, 'nfields', [])] for s in c.scens}, open(os.path.join(V, 'props', 'baseline', a.pid + '.json'), 'w'), indent=0)
sys.exit(rc)
