#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md (development aid; no check uses it)."""
import glob, json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + '/..')
after = {'c01-centroid', 'c04-inactive', 'c06-tight-cell'} | set(open('tools/seeds/STRENGTHENED').read().split())
missed = set(open('tools/seeds/MISSED').read().split())
print('| planted bug | caught by | what it needs |\n|---|---|---|')
for f in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(f)); i = f.split('/')[1]
    c = 'missed' if i in missed else m['property'] + (' (after strengthening it)' if i in after else '')
    print(f"| {i} | {c} | {m['needs']} |")
