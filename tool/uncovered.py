"""python3-vt tool/uncovered.py PID...: functions of the sources of the properties that no scenario executes"""
import sys, json, importlib, os
sys.path.insert(0, '/verif'); os.chdir('/verif')
from gpv.checker import Check
seen = {}
files = {}
for pid in sys.argv[1:]:
    c = Check(pid); c.extract()
    cov = set(json.load(open('evidence/%s.json' % pid))['coverage']['functions_inlined'])
    for f in c.P.funcs.values():
        if f.get('body') is None and 'body' in f: continue
        files.setdefault(f.get('file', '?').split('/repo/')[-1], {})[(f.get('line') or f.get('l') or 0, f['n'])] = None
    seen.setdefault('c', set()).update(cov)
for fl, fs in sorted(files.items()):
    if not fl.startswith('src'): continue
    print(fl)
    for l, n in sorted(fs, key=lambda x: (int(x[0] or 0), x[1])):
        if n not in seen['c']: print('   ', l, n)
