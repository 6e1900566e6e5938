"""fills the tables of DESIGN.md from known_findings.json, seeded/ and MANIFEST.json"""
import json, os, re, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(R, 'tools', 'DESIGN.in.md')
s = open(p).read()
k = json.load(open(os.path.join(R, 'known_findings.json')))
m = json.load(open(os.path.join(R, 'MANIFEST.json')))
s = s.replace('@@FINDINGS@@', '\n'.join('* ' + re.sub(r'^fixed: property=', '', x) for x in k['fixed']) + (
    '\n\nKnown findings that are not repaired:\n' + '\n'.join('* %s: %s' % (x.get('property'), x.get('what') or x) for x in k['known']) if k['known'] else ''))
rows = ['| seed | property | needs | caught by |', '|---|---|---|---|']
d = os.path.join(R, 'seeded')
caught = json.load(open(os.path.join(R, 'tools', 'caught.json')))
for i in sorted(os.listdir(d)):
    j = json.load(open(os.path.join(d, i, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (i, j['property'], j['needs'].replace('|', '/'), caught.get(i, '?')))
s = s.replace('@@SEEDS@@', '\n'.join(rows))
s = s.replace('@@NA@@', '\n'.join('* %s: %s' % (x['property'], x['reason']) for x in m['not_applicable']) or 'None.')
open(os.path.join(R, 'DESIGN.md'), 'w').write(s)
