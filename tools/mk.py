#!/usr/bin/env python3
"""The one place the properties are written down: regenerates properties.jsonl and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, CHECKS, NA = [], [], []

def P(id, title, statement, over, quant, why, files, mech, state=(), observe=(), na=None, tech=None, note=None, level='model_checking'):
    PROPS.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': quant},
                  'why_tests_cant': why,
                  'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                              **({'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state]} if state else {}),
                              **({'observe_at': list(observe)} if observe else {}), 'hook_needed': None}})
    if na: NA.append({'property': id, 'reason': na}); return
    CHECKS.append({'property': id, 'quick_cmd': f'python3 harness/check.py {id}',
                   'thorough_cmd': f'VERIF_TIER=thorough python3 harness/check.py {id}',
                   'technique': tech or MACHINE, 'level': level, 'level_note': note or MACHINE_NOTE})

MACHINE = 'TLA+ abstract machine for CSpydr programs; TLC validates the recorded output and exit status of compiled programs as traces of the machine'
MACHINE_NOTE = ('Each recorded run is judged exactly (every emitted byte and the exit status) by TLC against the TLA+ machine; the set of programs is '
                'a systematic enumeration plus seeded random programs, so the assurance is bounded by the programs generated. Trusts TLC, the program '
                'builder that keeps node table and source text in step, and the host CPU.')
exec(open(os.path.join(V, 'tools', 'props_def.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS: f.write(json.dumps(p) + '\n')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'python3 harness/build.py', 'checks': CHECKS, 'not_applicable': NA,
               'notes': 'No hooks: every check observes the compiler and the programs it produces from outside. known_findings.txt lists the findings and the repairs.'}, f, indent=1)
    f.write('\n')
try:
    import jsonschema
    ps = json.load(open('/root/.vp/PROPERTIES.schema.json')); ms = json.load(open('/root/.vp/MANIFEST.schema.json'))
    for p in PROPS: jsonschema.validate(p, ps)
    jsonschema.validate(json.load(open(os.path.join(V, 'MANIFEST.json'))), ms)
except ImportError: print('(schemas not checked)')
assert len({p['id'] for p in PROPS}) == len(PROPS)
print(len(PROPS), 'properties', len(CHECKS), 'checks')
