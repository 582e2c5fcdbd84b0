#!/usr/bin/env python3
"""Prints the table of planted changes (by hand, for DESIGN.md)."""
import json,glob,os
first={'b02-identity-nonce':'', }
rows=[]
for d in sorted(glob.glob(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'seeded','*'))):
    m=json.load(open(d+'/meta.json')); rows.append((os.path.basename(d),m['property'],m['what_it_breaks']))
for r in rows: print('| %s | %s | %s |'%r)
