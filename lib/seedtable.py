"""Appends the table of seeded bugs to DESIGN.md (development tool; no check uses it)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); M = '\n## Table of seeded bugs\n'
first = set(open(os.path.join(V, 'lib', 'first_missed.txt')).read().split())
t = open(os.path.join(V, 'DESIGN.md')).read().split(M)[0].rstrip() + '\n' + M
t += '\nEvery one is caught by the check of its property (quick tier). "*": the check missed it at first and was strengthened\n(round 2; of the 33 of round 1, 7 were missed at first).\n\n| property | bug | needs |\n|---|---|---|\n'
r = []
for i in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', i, 'meta.json'))); r.append((m['property'], i + (' *' if i in first else ''), m['needs']))
t += ''.join(f'| {a} | {b} | {c} |\n' for a, b, c in sorted(r))
open(os.path.join(V, 'DESIGN.md'), 'w').write(t)
