#!/usr/bin/env python3
"""Rewrites the tables of DESIGN.md: planted bugs (section 6, from seeded/ and
the results of tools/seed_try.sh in tools/planted.json) and what the quick
checks covered (section 8, from evidence/*.json)."""
import glob, json, os, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))

def block(name, text):
    global s
    a, b = f'<!-- {name} -->', f'<!-- end {name} -->'
    i, j = s.index(a) + len(a), s.index(b)
    s = s[:i] + '\n' + text + s[j:]

s = open('DESIGN.md').read()
rows = ['| planted bug | property | what it needs | caught by |\n', '|---|---|---|---|\n']
try:
    res = json.load(open('tools/planted.json'))
except OSError:
    res = {}
for f in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(f))
    i = f.split('/')[1]
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {res.get(i, '?')} |\n")
block('planted', ''.join(rows))

def num(n):
    return f'{n/1e6:.1f}M' if n >= 1e6 else f'{n/1e3:.1f}k' if n >= 1e4 else str(n)

rows = ['| property | scenarios | executions | states | transitions | seconds |\n', '|---|---|---|---|---|---|\n']
for f in sorted(glob.glob('evidence/C??.json')):
    e = json.load(open(f))
    if e['tier'] != 'quick':
        continue
    c = e['coverage']
    secs = sum(x.get('secs', 0) for x in c['scenarios'])
    rows.append(f"| {e['property']} | {len(c['scenarios'])} | {num(c['executions'])} | {num(c['states'])} | {num(c['transitions'])} | {secs:.0f} |\n")
block('coverage', ''.join(rows))
open('DESIGN.md', 'w').write(s)
