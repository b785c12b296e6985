#!/usr/bin/env python3
"""Rewrites the generated parts of DESIGN.md (jobs and bounds per property, planted bugs) from jobs.py and seeded/."""
import os, sys, json, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import jobs as J
src = open(V + '/DESIGN.md').read(); notes = {}
def put(tag, text):
    global src
    a, b = '<!-- %s -->\n' % tag, '<!-- end %s -->' % tag.split()[-1]; i, k = src.index(a) + len(a), src.index(b); src = src[:i] + text + src[k:]
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
for d in props:
    out = ''
    q = {j['name']: j for j in J.jobs(d['id'], 'quick')}
    for j in J.jobs(d['id'], 'thorough'):
        a = q.get(j['name']); t = j['bounds']; out += '- `%s` (%s): %s\n' % (j['name'], j['src'], (a['bounds'] if a else '(thorough only) ' + t) + ('. Thorough: ' + t if a and a['bounds'] != t else ''))
    put('jobs ' + d['id'], out)
rows = ''
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m)); n = os.path.basename(os.path.dirname(m)); rows += '| %s | %s | %s |\n' % (n, d['property'], re.sub(r'\s+', ' ', d['what_it_breaks']).replace('|', '\\|'))
put('seeded', '| change | property, caught by its check | what it breaks |\n|---|---|---|\n' + rows)
open(V + '/DESIGN.md', 'w').write(src)
