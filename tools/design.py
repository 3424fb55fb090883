#!/usr/bin/env python3
"""Writes DESIGN.md: head + one section per rule module + table of planted bugs + tail."""
import glob, importlib, json, os, re, sys, textwrap
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
out = [open(H + '/tools/design_head.md').read().rstrip() + '\n']
seeds = {}
caught = json.load(open(H + '/tools/caught.json'))
for d in sorted(glob.glob(H + '/seeded/*/meta.json')):
    seeds[os.path.basename(os.path.dirname(d))] = json.load(open(d))
w = lambda s: textwrap.fill(' '.join(s.split()), 130)
for p in sorted(glob.glob(os.path.join(H, 'va/rules/c*.py'))):
    m = importlib.import_module('va.rules.' + os.path.basename(p)[:-3])
    if getattr(m, 'WIP', False):
        continue
    P = m.PROP
    out.append('### %s %s\n' % (P['id'], P['title']))
    out.append('* Method: ' + m.TECHNIQUE + '.')
    out.append(w('* How: ' + m.EXPLAIN))
    if getattr(m, 'BOUNDS', None):
        out.append(w('* Bounds: ' + m.BOUNDS))
    a = getattr(m, 'ASSUMES', None) or getattr(m, 'ASSUME', None)
    if a:
        out.append(w('* Assumes: ' + (a if isinstance(a, str) else '; '.join(a))))
    out.append(w('* Beyond tests: ' + P['why_tests_cant']))
    mine = [s for s, q in seeds.items() if q['property'] == P['id']]
    if mine:
        out.append('* Planted bugs: ' + ', '.join(mine) + '.')
    out.append('')
out.append(open(H + '/tools/design_tail.md').read().strip() + '\n')
out.append('## Planted bugs (seeded/) and the checks that catch them\n')
for s, q in seeds.items():
    out.append('* `%s` (%s): %s; caught by %s.' % (s, q['property'], ' '.join(q['what_it_breaks'].split()), ', '.join(caught.get(s, [q['property']])) or 'none'))
out.append('\n## Defects found and repaired (fix: commits), from known-findings.txt\n')
for l in open(H + '/known-findings.txt'):
    if l.startswith(('fixed:', 'known:')):
        out.append('* ' + l.strip())
open(H + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
