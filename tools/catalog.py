#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing; the outputs are committed)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = 'include/sim_ds/'
AI = 'abstract interpretation of the compiled LLVM IR (relational bit-vector domain with joins, no execution, no solver)'
TB = 'Trusts clang\'s front end and SROA, and the transfer functions and library models in tools/absint. '
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, level=None, note=None, na=None, observe=None, state=None):
    a = {'files': [I + f if not f.startswith('include') else f for f in files], 'mechanism': [{'name': n, 'where': I + w if not w.startswith('include') else w} for n, w in mech]}
    if observe: a['observe_at'] = observe
    if state: a['state'] = state
    P.append((dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': qtext}, why_tests_cant=why, anchors=a), technique, level, note, na))


exec(open(os.path.join(V, 'tools', 'catalog_entries.py')).read())

sys.path.insert(0, os.path.join(V, 'tools'))
import props
checks, na = [], []
for p, t, l, n, r in P:
    assert len(p['title']) <= 80, p['title']
    assert p['statement'].count('. ') <= 2, p['id']
    if p['id'] in props.PROPS:
        checks.append({'property': p['id'], 'quick_cmd': './check %s quick' % p['id'], 'thorough_cmd': './check %s thorough' % p['id'], 'technique': t, 'level': props.PROPS[p['id']]['level'], 'level_note': n})
    else:
        assert r, 'no reason for ' + p['id']
        na.append({'property': p['id'], 'reason': r})
assert set(props.PROPS) == {c['property'] for c in checks}
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p, *_ in P: f.write(json.dumps(p, ensure_ascii=False) + '\n')
json.dump({'version': 1, 'setup_cmd': 'make -s -j8 -C tools/absint', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks: the analyses read the unmodified sources of /repo. See DESIGN.md.'}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
print(len(checks), 'checks', len(na), 'not applicable')
try:
    import jsonschema
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p, *_ in P: jsonschema.validate(p, s)
    jsonschema.validate(json.load(open(os.path.join(V, 'MANIFEST.json'))), json.load(open('/root/.vp/MANIFEST.schema.json')))
    print('schemas ok')
except ImportError: print('jsonschema not available')
