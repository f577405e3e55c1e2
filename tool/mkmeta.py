#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (the single place where properties are worded)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = 'src/applications/'
P, NA = [], []


def prop(id, title, statement, over, text, why, files, mech, note=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
    P[-1]['_note'] = note


def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech)
    NA.append(dict(property=id, reason=reason))


YM = A + 'components/y_matrix/ymatrix_components.cpp'
PF = A + 'components/pf_matrix/pf_components.cpp'
NOTEST = 'No unit test exercises this component; the application runs sample a handful of textbook grids and compare nothing beyond convergence.'

prop('C01', 'Y-bus is the sum of the pi-models of the elements in service',
     'The network admittance matrix equals, entry by entry, the sum of the pi-equivalent contributions (series admittance, charging, off-nominal tap, phase shift, switched orientation, line and bus shunts) of exactly the transmission elements that are in service. '
     'Elements out of service contribute nothing, and the contribution reported for a single element agrees with what the matrix contains for it.',
     ['inputs', 'configurations'], 'all element parameters (any resistance, reactance, tap, phase shift, charging, shunt), any number of parallel elements, any status pattern, any number of branches at a bus',
     NOTEST, [YM, PF],
     [('admittance of a branch in both directions', YM), ('transformer and shunt contributions to a bus', YM), ('diagonal assembly over the neighbouring branches', YM), ('contribution of one element', YM)])
prop('C02', 'Power-flow mismatch, line flows and updates obey the network equations',
     'The power-flow residual at every bus equals the real and reactive power implied by the complex voltages and the admittance matrix minus the scheduled injection of the generators and loads in service. '
     'Reported line flows equal the complex power entering the element, and applying a Newton correction changes exactly the unknowns of the bus, keeping the values neighbours see in step.',
     ['inputs', 'configurations'], 'all voltages, angles, admittances, schedules and statuses; any number of branches, generators and loads at a bus; PV and PQ buses',
     NOTEST, [PF],
     [('power into the network through a branch', PF), ('residual of a bus', PF), ('scheduled injection', PF), ('flow through an element', PF), ('Newton update', PF)])
prop('C03', 'Power-flow Jacobian is the derivative of the mismatch',
     'Every entry the power-flow Jacobian reports for a bus or a branch is the partial derivative of the corresponding mismatch equation with respect to the corresponding unknown. '
     'Buses with regulated voltage contribute no voltage unknown and no reactive equation, so that a Newton step computed from it solves the linearised network equations.',
     ['inputs', 'configurations'], 'all voltages, angles and admittances, every PV/PQ combination of the two ends of a branch, any number of branches at a bus',
     NOTEST + ' A wrong derivative usually still converges, only more slowly, so even end results do not show it.', [PF],
     [('diagonal Jacobian block', PF), ('off-diagonal Jacobian blocks, both directions', PF)])
prop('C04', 'Matrix and vector blocks: declared size, delivered values and presence agree',
     'A network component that declares a block of a given size for a matrix or vector delivers exactly that many values for it, never writes beyond it, and delivers values exactly when it declares a block. '
     'Off-diagonal blocks exist only where both ends carry a block, with as many rows as equations at one end and as many columns as unknowns at the other.',
     ['inputs', 'configurations'], 'every assembly mode, every status (isolated, reference, regulated) of a bus and of both ends of a branch, real and complex variants',
     NOTEST + ' An overrun is absorbed by the assembly buffer in ordinary runs.', [PF, YM],
     [('diagonal block size and values', PF), ('vector block size and values', PF), ('off-diagonal block size and values', PF)])
prop('C05', 'Reactive limits: regulated buses are released at the limit and put back exactly',
     'When the reactive power needed to hold the voltage of a bus lies outside the combined limits of its generators in service, the bus stops regulating and its generators inject exactly the violated limit, with real power, loads and statuses unchanged; otherwise nothing changes. '
     'Clearing the limits restores the bus to its state before the check, however many checks were made, and leaves a bus that was never switched untouched.',
     ['inputs', 'histories'], 'all generator and load schedules, statuses and limits, any number of generators and loads, any sequence of checks followed by a clear',
     'No test drives a bus into its limits; the behaviour depends on the history of checks and clears.', [PF],
     [('limit check', PF), ('restoring the bus', PF)])

exec(open(os.path.join(V, 'tool', 'meta_more.py')).read()) if os.path.exists(os.path.join(V, 'tool', 'meta_more.py')) else None

LEVEL = 'proof'
DEF = ('contracts over the functions extracted from /repo on every run; obligations discharged by the built-in normaliser and z3/cvc5 over the reals and integers; '
       'machine arithmetic is treated as mathematical; callees outside the property are covered by the contracts listed in the evidence; functions out of reach after a change fall back to a bounded compiled comparison, labelled bounded')
claimed = [p for p in P if p['id'] not in {n['property'] for n in NA}]
notes = {p['id']: p.pop('_note') for p in P}
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in sorted(P, key=lambda p: p['id']): f.write(json.dumps(p) + '\n')
m = dict(version=1, setup_cmd='bash setup.sh',
         checks=[dict(property=p['id'], quick_cmd='python3-vt check.py %s' % p['id'], thorough_cmd='python3-vt check.py %s --tier thorough' % p['id'],
                      technique='contract-based deductive verification of the real C++ (functions extracted by clang on every run, symbolic weakest-precondition style obligations, normaliser + SMT), refuted obligations replayed on the compiled code',
                      level=LEVEL, level_note=notes[p['id']] or DEF) for p in sorted(claimed, key=lambda p: p['id'])],
         not_applicable=NA)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)

# DESIGN.md
HOW = {}
for f in ('design_how.json',):
    p = os.path.join(V, 'tool', f)
    if os.path.exists(p): HOW = json.load(open(p))
out = []
for p in sorted(P, key=lambda p: p['id']):
    out.append('### %s %s\n\n%s\n' % (p['id'], p['title'], HOW.get(p['id']) or ('Not applicable: ' + next((n['reason'] for n in NA if n['property'] == p['id']), ''))))
sd = []
base = os.path.join(V, 'seeded')
missed = HOW.get('_missed', {})
for d in sorted(os.listdir(base)) if os.path.isdir(base) else []:
    mp = os.path.join(base, d, 'meta.json')
    if not os.path.exists(mp): continue
    m = json.load(open(mp))
    sd.append('| %s | %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'], m['needs'], missed.get(d, 'caught by %s' % m['property'])))
kf = json.load(open(os.path.join(V, 'known_findings.json')))
df = ['- ' + (k.get('entry') or '%s (open): %s' % (k['property'], k.get('what', ''))) for k in kf] + ['', HOW.get('_defects', '')]
t = open(os.path.join(V, 'tool', 'DESIGN.in.md')).read()
t = t.replace('@@PROPS@@', '\n'.join(out)).replace('@@DEFECTS@@', '\n'.join(df)).replace('@@LIMITS@@', HOW.get('_limits', ''))
t = t.replace('@@SEEDS@@', '| change | property | what it breaks | needs | result |\n|---|---|---|---|---|\n' + '\n'.join(sd))
open(os.path.join(V, 'DESIGN.md'), 'w').write(t)
