#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand)."""
import json, os, subprocess
V = os.path.dirname(os.path.abspath(__file__))
P, NA = [], []
HOOK = []


def prop(id, title, statement, over, text, why, files, mech, technique='Kani contracts per word on the real crate, discharged by z3', level='proof',
         note='', na=None, state=None, observe=None, hook=None):
    anchors = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        anchors['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        anchors['observe_at'] = observe
    if hook:
        anchors['hook_needed'] = hook
    assert len(title) <= 80, title
    assert statement.count('. ') <= 2, (id, statement)
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text},
                  why_tests_cant=why, anchors=anchors))
    if na:
        NA.append({'property': id, 'reason': na})
    else:
        HOOK.append({'property': id, 'quick_cmd': 'python3 check.py ' + id,
                     'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + id,
                     'technique': technique, 'level': level, 'level_note': note})


exec(open(os.path.join(V, 'proptable.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
commits = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--grep=^hook:'], capture_output=True, text=True).stdout.split()
json.dump({'version': 1,
           'setup_cmd': 'bash setup.sh',
           'hooks': {'guard': 'cfg(rtforth_verif)', 'enable': 'RUSTFLAGS="--cfg rtforth_verif" (set by check.py for the properties that need it)',
                     'source_commits': commits},
           'checks': HOOK, 'not_applicable': NA,
           'notes': 'check.py replay <file> replays a recorded violation. known-findings lists recorded and repaired defects.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
try:
    import jsonschema
    jsonschema.validate(json.load(open(V + '/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in P:
        jsonschema.validate(p, s)
    print('valid', len(P), len(HOOK), len(NA))
except ImportError:
    pass
