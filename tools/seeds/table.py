#!/usr/bin/env python3
"""Writes the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, glob, os
root=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
t=open(root+'/DESIGN.md').read()
head='| check | planted bug | what it breaks | needs |\n|---|---|---|---|\n'
i=t.index(head)
rows=[]
for f in glob.glob(root+'/seeded/*/meta.json'):
    m=json.load(open(f)); rows.append((m['property'],f.split('/')[-2],m['what_it_breaks'],m['needs']))
open(root+'/DESIGN.md','w').write(t[:i]+head+''.join('| %s | %s | %s | %s |\n'%r for r in sorted(rows)))
