#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + '/..')
NOTE = {
    'C10-two-waits': 'C10 (first missed; led to the contended scene and the bound on the total wait)',
    'C04-iterator-early-end': 'C04 (first missed; led to the rule that the iterator ends exactly at end of stream)',
    'C16-spent-context': 'C16 (first missed; led to contexts with values of their own, called repeatedly)',
    'C11-half-value': 'C11 (first missed: every value was small; led to values of the full width)',
    'C18-byte-index': 'C18 (first missed: never more than 300 elements; led to thousands of them)',
    'C03-new-memory-old-place': 'C03 (first missed; led to spans being given other memory)',
}
s = open('DESIGN.md').read()
rows = []
for d in sorted(os.listdir('seeded')):
    m = json.load(open(f'seeded/{d}/meta.json'))
    rows.append('| %s | %s (needs: %s) | %s |' % (d, m['what_it_breaks'].strip().rstrip('.'),
                m['needs'].strip().rstrip('.'), NOTE.get(d, m['property'])))
h = '|----|----------------|-----------|\n'
i = s.index(h) + len(h)
open('DESIGN.md', 'w').write(s[:i] + '\n'.join(rows) + '\n')
