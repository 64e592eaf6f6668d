#!/usr/bin/env python3
"""tools/designtab.py -- the cost table of DESIGN.md from the last evidence files"""
import json, re
rows = ['| property | contracts | obligations | paths | bounded contracts | wall s |', '|---|---|---|---|---|---|']
for l in open('/verif/properties.jsonl'):
    i = json.loads(l)['id']
    e = json.load(open(f'/verif/evidence/{i}.json')); c = e['coverage']
    b = c.get('bounded_stand_ins') or []
    rows.append(f"| {i} | {c['contracts']} | {c['obligations']} | {c['paths']} | {len(b) or ''} | {e['wall_s']:.0f} |")
s = open('/verif/DESIGN.md').read()
t = '<!-- costs -->\n' + '\n'.join(rows) + '\n<!-- /costs -->'
if '<!-- costs -->' in s: s = re.sub(r'<!-- costs -->.*<!-- /costs -->', lambda m: t, s, flags=re.S)
else: s += '\n' + t + '\n'
open('/verif/DESIGN.md', 'w').write(s)
