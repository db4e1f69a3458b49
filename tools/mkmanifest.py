#!/usr/bin/env python3
# Writes MANIFEST.json: one check per property that has a harness.
import json, glob, re, os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + '/..')
props = [json.loads(l) for l in open('properties.jsonl')]
have = {}
for f in sorted(glob.glob('harness/specs/*.json')):
    for h in json.load(open(f)):
        have.setdefault(h['prop'], []).append(h)
NA = {}
if os.path.exists('tools/not_applicable.json'):
    NA = json.load(open('tools/not_applicable.json'))
checks, na = [], []
for p in props:
    i = p['id']
    hs = have.get(i)
    if not hs:
        na.append({'property': i, 'reason': NA.get(i, 'no harness yet')})
        continue
    note = 'Holds for every value within the bounds of each harness: ' + '; '.join('%s (%s)' % (h['id'], h['covers'] or h['fn']) for h in hs)
    note += '. Nothing is claimed outside those bounds. Trusted: go/ssa, the interpreter in /verif/engine, the SMT solver, and the models listed in the evidence file.'
    checks.append({'property': i, 'quick_cmd': './check.sh %s quick' % i, 'thorough_cmd': './check.sh %s thorough' % i,
                   'evidence_file': 'evidence/%s.json' % i,
                   'technique': 'symbolic execution of the SSA form of the real Go code with an SMT solver (z3), counterexamples replayed natively',
                   'level': 'model_checking', 'level_note': note})
m = {'version': 1, 'setup_cmd': './build.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'See DESIGN.md. engine/ is the checker, harness/ the harnesses and environment models laid over the repository when it is loaded.'}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
