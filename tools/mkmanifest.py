#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the contracts table."""
import json, sys
sys.path.insert(0, '/verif/mirvc')
import contracts
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
claimed = set()
for c in contracts.C.values():
    claimed |= set(c.props())
NA = {}
try:
    NA = json.load(open('/verif/tools/not_applicable.json'))
except FileNotFoundError:
    pass
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA or i not in claimed:
        na.append(dict(property=i, reason=NA.get(i, 'no contract within reach has been discharged for it yet')))
        continue
    fns = sorted(c.fn for c in contracts.C.values() if i in c.props())
    trusted = sorted(c.fn for c in contracts.C.values() if i in c.props() and getattr(c, 'trusted', None))
    checks.append(dict(property=i, quick_cmd='python3-vt check.py %s quick' % i, thorough_cmd='python3-vt check.py %s thorough' % i,
        evidence_file='evidence/%s.json' % i,
        technique='contract-based deductive verification of the compiled MIR of the real functions (own VC generator, Z3)',
        level='proof',
        level_note='Unbounded for all inputs satisfying the stated preconditions: weakest-precondition obligations of %d contracted function(s) generated from the MIR rustc emits for /repo on each run, discharged by Z3. Trusted: rustc MIR, the VC generator and its models of std, the f32 axioms of mirvc/fp.py (IEEE rounding facts), Z3. Functions under contract: %s.%s If a function leaves the supported fragment the run degrades to the labelled bounded stand-in (executable contract on random inputs), reported as such in evidence.' % (len(fns), ', '.join(f.split('::')[-1] for f in fns), (' Trusted contracts: ' + ', '.join(trusted) + '.') if trusted else '')))
m = dict(version=1, setup_cmd='python3-vt check.py --setup', checks=checks, not_applicable=na,
         notes='No hooks in /repo: the verifier reads the MIR of private functions directly. See DESIGN.md; genuine defects are in known_findings.txt.')
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
