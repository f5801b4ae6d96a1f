#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, note=''):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
              anchors=dict(files=files, mechanism=[dict(name=m[0], where=m[1]) for m in mech])), note))
I, C = 'include/ceres/', 'internal/ceres/'
exec(open(os.path.join(V, 'vp', 'props_list.py')).read())
NOT = []   # (id, reason)
exec(open(os.path.join(V, 'vp', 'props_not.py')).read()) if os.path.exists(os.path.join(V, 'vp', 'props_not.py')) else None
TECH = 'symbolic execution of the LLVM bitcode compiled from the current sources; obligations decided over all inputs by polynomial normal form and Z3 (SMT)'
NOTE = 'Bounded: every assertion is decided for all values of the symbolic inputs within the bounds listed in the evidence. Trusts the engine in /verif/engine, clang 18, Z3 and the stand-ins in /verif/shim and /verif/rt; real arithmetic is exact unless an entry says IEEE-754; violations are replayed against the natively compiled code before they are reported.'
checks, na = [], []
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for d, note in sorted(P, key=lambda x: x[0]['id']):
        f.write(json.dumps(d) + '\n')
        assert len(d['title']) <= 80, d['title']
        if glob.glob(os.path.join(V, 'h', d['id'] + '.cc')):
            checks.append(dict(property=d['id'], quick_cmd='python3 vp/run.py %s quick' % d['id'], thorough_cmd='python3 vp/run.py %s thorough' % d['id'], technique=TECH, level='model_checking', level_note=(note + ' ' if note else '') + NOTE))
        else: na.append(dict(property=d['id'], reason=dict(NOT).get(d['id'], 'no check yet')))
m = dict(version=1, setup_cmd='python3 vp/setup.py', checks=checks, not_applicable=na)
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1); f.write('\n')
print(len(checks), 'checks', [n['property'] for n in na])
