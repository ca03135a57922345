#!/usr/bin/env python3
"""DESIGN.md from design-body.md and the planted bugs."""
import json, os
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
MISSED = set('c01-reset-labels c06-float-canary c12-bye-unflushed c08-trimmed-name c10-operator-lines c14-reset-buffer c15-quoted-tail c19-sixth-task c19-label-end c10-close-lower c13-no-handler'.split())
rows = []
for d in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    p = m['property']
    rows.append(f"| {d}: {m['what_it_breaks']} | {p} | {p} | {'missed, check strengthened' if d in MISSED else 'caught'} |")
open(root + '/DESIGN.md', 'w').write(open(here + '/design-body.md').read().replace('@TABLE@', '\n'.join(rows)))
