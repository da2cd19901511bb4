#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []


def P(id, title, statement, over, text, why, files, mech, level_note, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe:
        a['observe_at'] = observe
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                      why_tests_cant=why, anchors=a, _note=level_note))


def N(id, title, statement, over, text, why, files, mech, reason):
    P(id, title, statement, over, text, why, files, mech, None)
    NA.append(dict(property=id, reason=reason))


exec(open(os.path.join(HERE, 'tools', 'props_data.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
checks = []
for p in PROPS:
    if p['_note'] is None:
        continue
    assert os.path.exists(os.path.join(HERE, 'checks', p['id'].lower() + '.py')), p['id']
    checks.append({
        'property': p['id'],
        'quick_cmd': 'python3 lib/run_check.py %s --tier quick' % p['id'],
        'thorough_cmd': 'python3 lib/run_check.py %s --tier thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': 'explicit TLA+ specification checked with TLC; conformance of the code by generated behaviours '
                     'executed on the real API and recorded traces/data decided by TLC',
        'level': 'model_checking',
        'level_note': p['_note'],
    })
man = {
    'version': 1,
    'setup_cmd': 'bash tools/setup.sh',
    'checks': checks,
    'not_applicable': NA,
    'notes': 'No hooks: every observation is taken through the public API. /repo carries only fix: commits.',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(PROPS), 'properties,', len(checks), 'checks')

ns = {}
exec(open(os.path.join(HERE, 'tools', 'design_props.py')).read(), ns)
D = ns['D']
out = [open(os.path.join(HERE, 'tools', 'design_head.md')).read(), '## Properties']
for p in PROPS:
    if p['_note'] is None:
        continue
    what, oracle, bounds, cost = D[p['id']]
    out.append('### %s %s\n* **Specified, enumerated:** %s.\n* **Oracle:** %s.\n* **Bounds:** %s. **Quick run:** %s.\n* **Beyond the tests:** %s\n* %s\n'
               % (p['id'], p['title'], what, oracle, bounds, cost, p['why_tests_cant'], p['_note']))
if NA:
    out.append('### Not applicable')
    out += ['* **%s** %s' % (x['property'], x['reason']) for x in NA]
catches = json.load(open(os.path.join(HERE, 'tools', 'catches.json'))) if os.path.exists(os.path.join(HERE, 'tools', 'catches.json')) else {}
out.append('\n## Planted bugs and what catches them\n| bug | needs | breaks | caught by |\n|---|---|---|---|')
sd = os.path.join(HERE, 'seeded')
for b in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, b, 'meta.json')))
    out.append('| %s | %s | %s | %s |' % (b, m['needs'], m['what_it_breaks'], catches.get(b, 'not yet run')))
out.append('')
out.append(open(os.path.join(HERE, 'tools', 'design_tail.md')).read())
with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
    f.write('\n'.join(out))
