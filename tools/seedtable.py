"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | caught by | what it breaks | needs |', '|---|---|---|---|']
for path in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    with open(path) as f:
        d = json.load(f)
    rows.append('| %s | %s | %s | %s |' % (
        os.path.basename(os.path.dirname(path)),
        d['property'],
        d['what_it_breaks'].replace('|', '/'), d['needs'].replace('|', '/')))
p = os.path.join(HERE, 'DESIGN.md')
with open(p) as f:
    text = f.read()
table = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
if 'SEEDTABLE' in text:
    text = text.replace('SEEDTABLE', table)
else:
    text = re.sub(r'<!-- seeds -->.*?<!-- /seeds -->', lambda m: table, text,
                  flags=re.S)
with open(p, 'w') as f:
    f.write(text)
