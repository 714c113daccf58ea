#!/usr/bin/env python3
"""Writes the generated tables of DESIGN.md (between the markers): the runs of plan.py, the fixes and the planted bugs."""
import os, re, json, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H + '/tools'); import plan
props = {p['id']: p for p in map(json.loads, open(H + '/properties.jsonl'))}
def runs(rs): return '; '.join('`' + r['h'] + ''.join(' %s=%s' % kv for kv in r['params'].items()) + (' preempt' if 'preempt' in r else '') + (' +races' if r.get('race') else '') + (' (large world)' if r.get('big') else '') + '`' for r in rs) or '–'
t = ['| property | bounds (quick) | quick runs | additional thorough runs | outside |', '|---|---|---|---|---|']
for i in sorted(plan.PLAN): p = plan.PLAN[i]; t.append('| %s %s | %s | %s | %s | %s |' % (i, props[i]['title'], p['bounds'], runs(p['quick']), runs(p['thorough']), p.get('outside') or '–'))
b = ['| bug | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
res = {}
if os.path.exists(H + '/tools/caught.json'): res = json.load(open(H + '/tools/caught.json'))
for s in sorted(os.listdir(H + '/seeded')): m = json.load(open('%s/seeded/%s/meta.json' % (H, s))); b.append('| %s | %s | %s | %s | %s |' % (s, m['property'], m['what_it_breaks'], m['needs'], res.get(s, m['property'])))
s = open(H + '/DESIGN.md').read()
for k, x in (('runs', t), ('bugs', b)): s = re.sub(r'(<!-- %s -->\n).*?(<!-- end -->)' % k, lambda m: m.group(1) + '\n'.join(x) + '\n' + m.group(2), s, flags=re.S)
open(H + '/DESIGN.md', 'w').write(s)
