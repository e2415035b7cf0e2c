#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md: repaired defects per property, worlds, planted bugs."""
import json, os, re, sys, glob, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(V, 'lib'))
import suites
from worlds import WORLDS
def part(text, name, body):
    a, b = '<!-- %s -->' % name, '<!-- /%s -->' % name
    i, j = text.index(a) + len(a), text.index(b)
    return text[:i] + '\n' + body + text[j:]
t = open(os.path.join(V, 'DESIGN.md')).read()
n = collections.OrderedDict()
for l in open(os.path.join(V, 'known_findings.txt')):
    m = re.match(r'fixed: property=(\w+) (\w+) (.*)', l)
    if m: n.setdefault(m.group(1), []).append(m.group(3))
t = part(t, 'fixes', ''.join('* %s (%d): %s\n' % (p, len(q), '; '.join(q)) for p, q in sorted(n.items())))
rows = '| world | machine | calls in the alphabet | explored for (depth quick / thorough) |\n|---|---|---|---|\n'
for w, d in WORLDS.items():
    use = ', '.join('%s (%d/%d)' % (p, a, b) for p, q in suites.MCS.items() for x, a, b in q if x == w)
    rows += '| %s | %s | %d | %s |\n' % (w, d['module'], len(d['alphabet']), use)
t = part(t, 'worlds', rows)
rows = '| planted bug | property | breaks | needs | caught by |\n|---|---|---|---|---|\n'
for f in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f)); rows += '| %s | %s | %s | %s | %s |\n' % (os.path.basename(os.path.dirname(f)), m['property'], m['what_it_breaks'], m['needs'], ', '.join(m.get('caught_by', [])) or '(not run)')
t = part(t, 'seeds', rows)
open(os.path.join(V, 'DESIGN.md'), 'w').write(t)
