"""Regenerates properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md from
tools/props/*.json (one file per property)."""
import json, os, glob, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.load(open(f)) for f in sorted(glob.glob(V + '/tools/props/*.json'))]
with open(V + '/properties.jsonl', 'w') as fp:
    for p in props:
        fp.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}, ensure_ascii=False) + '\n')
checks, na = [], []
for p in props:
    if p.get('not_applicable') or not os.path.exists(V + '/checks/%s.py' % p['id']):
        na.append({'property': p['id'], 'reason': p.get('not_applicable') or 'no check yet'})
        continue
    checks.append({'property': p['id'], 'quick_cmd': './run ' + p['id'],
                   'thorough_cmd': './run ' + p['id'] + ' thorough', 'technique': p['technique'],
                   'level': p.get('level', 'model_checking'), 'level_note': p['level_note']})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}
hk = V + '/tools/hooks.json'
if os.path.exists(hk):
    m['hooks'] = json.load(open(hk))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
d = V + '/DESIGN.md'
if os.path.exists(d):
    t = open(d).read()
    a, b = '<!-- properties: generated by tools/gen.py -->\n', '<!-- end of properties -->\n'
    s = ''
    for p in props:
        s += '### %s  %s\n\n%s\n\n%s\n\n' % (p['id'], p['title'], p['statement'], p['design'] if not p.get('not_applicable') else 'Not applicable: ' + p['not_applicable'])
    t = t[:t.index(a) + len(a)] + '\n' + s + t[t.index(b):]
    # seeded bugs table
    a, b = '<!-- seeded: generated by tools/gen.py -->\n', '<!-- end of seeded -->\n'
    rows = '\n| bug | property | needs | caught by |\n|---|---|---|---|\n'
    res = {}
    rf = V + '/tools/seeded_results.json'
    if os.path.exists(rf):
        res = json.load(open(rf))
    for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
        n = f.split('/')[-2]
        mm = json.load(open(f))
        rows += '| %s | %s | %s | %s |\n' % (n, mm['property'], mm['needs'], ', '.join(res.get(n, [])) or 'not run')
    t = t[:t.index(a) + len(a)] + rows + t[t.index(b):]
    open(d, 'w').write(t)
import jsonschema
S = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open(V + '/properties.jsonl'):
    jsonschema.validate(json.loads(l), S)
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(props), 'properties', len(checks), 'checks')
