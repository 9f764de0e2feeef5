#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md (development tool)."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {'print-pair-order': 'asks the stream for its position (`tellp`), which is not modelled', 'list-uniq-adjacent': 'the predicate of the filtered form depends on the number of the turn'}
MARK = '| planted bug | property |'
p = os.path.join(HERE, 'DESIGN.md')
t = open(p).read()
t = t[:t.index(MARK)] if MARK in t else t
rows = []
for d in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    m = json.load(open(os.path.join(HERE, 'seeded', d, 'meta.json')))
    rows.append((m['property'], d, m['needs'], 'missed: ' + MISSED[d] if d in MISSED else 'caught by ' + m['property']))
t += MARK + ' needs | result |\n|---|---|---|---|\n' + ''.join('| %s | %s | %s | %s |\n' % (d, p_, n, r) for p_, d, n, r in sorted(rows))
open(p, 'w').write(t)
