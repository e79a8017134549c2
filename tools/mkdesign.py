#!/usr/bin/env python3
"""Fills the lists of fixes and seeds into DESIGN.md (from tools/DESIGN.src.md)."""
import json, re, glob, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
k = json.load(open('known_findings.json'))
fx = "\n".join("* %s `%s` %s" % re.match(r'fixed: property=(\S+) (\S+) (.*)', f).groups() for f in k['fixed'])
rows = []
for p in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(p))
    rows.append("| %s | %s | %s |" % (p.split('/')[-2], m['property'], m['needs'].replace('|', '/')))
s = open('tools/DESIGN.src.md').read()
open('DESIGN.md', 'w').write(s.replace('@FIXES@', fx).replace('@SEEDS@', "| seed | property | needs |\n|---|---|---|\n" + "\n".join(rows)))
