"""Writes the table of planted changes at the end of DESIGN.md (development only; no check reads seeded/)."""
import glob
import json
import os
import re

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| change | needs | caught by |', '| --- | --- | --- |']
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(f))
    by = m['property'] if m.get('caught', True) else 'missed'
    needs = re.sub(r'\s+', ' ', m['needs']).replace('|', '/')
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {needs[:160]} | {by} |")
p = root + '/DESIGN.md'
t = open(p).read()
a, b, _ = t.partition('Which check catches each:')
open(p, 'w').write(a + b + '\n\n' + '\n'.join(rows) + '\n')
