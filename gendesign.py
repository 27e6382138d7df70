#!/usr/bin/env python3
# Regenerates DESIGN.md.
import json, os, glob
os.chdir(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open('properties.jsonl') if l.strip()]
cfg = json.load(open('checks.json'))['properties']
times = json.load(open('design/times.json')) if os.path.exists('design/times.json') else {}
out = open('design/intro.md').read() + '\n## The properties\n\n'
for p in props:
    c = cfg.get(p['id'])
    out += '### %s %s\n\n%s\n\n' % (p['id'], p['title'], p['statement'])
    if not c:
        continue
    a = p['anchors']
    out += '* Code: ' + '; '.join('%s (%s)' % (m['name'], m['where']) for m in a['mechanism']) + '\n'
    out += '* Oracle: %s.\n' % c.get('oracle', '')
    out += '* Bounds:\n'
    for h in c['harnesses']:
        out += '  * %s%s: %s\n' % (h['name'], ' (%s)' % h['pkg'] if h.get('pkg') else '', h.get('bounds', ''))
    if c.get('outside'):
        out += '* Outside: ' + '; '.join(c['outside']) + '.\n'
    t = times.get(p['id'])
    out += '* Tests: %s\n' % p['why_tests_cant']
    if t:
        out += '* Cost: quick about %s s on 8 cores.\n' % t
    out += '\n'
out += open('design/outro.md').read()
if os.path.exists('design/notes.md'):
    out += '\n' + open('design/notes.md').read()
out += '\n## Planted bugs\n\n| seed | property | needs | check |\n|---|---|---|---|\n'
res = {}
if os.path.exists('design/seeds.txt'):
    for l in open('design/seeds.txt'):
        f = l.split()
        res[f[0]] = ' '.join(f[1:])
for s in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(s)); i = s.split('/')[1]
    out += '| %s | %s | %s | %s |\n' % (i, m['property'], str(m['needs']).replace('|', '/').replace('\n', ' '), res.get(i, ''))
open('DESIGN.md', 'w').write(out)
