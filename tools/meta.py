#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md from the entries in tools/props_*.py."""
import json, os, glob, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, 'tools'))
PROPS, NA = [], []
for f in sorted(glob.glob(os.path.join(root, 'tools', 'props_*.py'))):
    ns = {}
    exec(open(f).read(), ns)
    PROPS += ns.get('PROPS', [])
    NA += ns.get('NA', [])
PROPS.sort(key=lambda p: p['id'])
with open(os.path.join(root, 'properties.jsonl'), 'w') as o:
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        q = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}
        if 'state' in p:
            q['anchors']['state'] = [{'name': n, 'meaning': m} for n, m in p['state']]
        o.write(json.dumps(q) + '\n')
man = {'version': 1, 'setup_cmd': 'bash setup.sh',
       'checks': [{'property': p['id'], 'quick_cmd': 'bash check.sh ' + p['id'],
                   'thorough_cmd': 'VERIF_TIER=thorough bash check.sh ' + p['id'],
                   'technique': p['tech'], 'level': 'exploration', 'level_note': p['note']} for p in PROPS if not p.get('na')],
       'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in PROPS if p.get('na')] + NA}
json.dump(man, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(root, 'MANIFEST.json'), 'a').write('\n')
d = open(os.path.join(root, 'DESIGN.md')).read()
a, b = '<!-- properties: generated by tools/meta.py -->\n', '<!-- end of generated part -->'
i, j = d.index(a) + len(a), d.index(b)
out = ''
for p in PROPS:
    out += '### %s — %s\n\n%s\n\n' % (p['id'], p['title'], p['statement'])
    if p.get('na'):
        out += 'Not applicable: %s\n\n' % p['na']
        continue
    out += p['how'].strip() + '\n\n'
open(os.path.join(root, 'DESIGN.md'), 'w').write(d[:i] + '\n' + out + d[j:])
try:
    import jsonschema
    jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in open(os.path.join(root, 'properties.jsonl')):
        jsonschema.validate(json.loads(l), s)
    print('valid', len(PROPS))
except ImportError:
    print('not validated')
