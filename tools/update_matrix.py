#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
import os
import re

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(root, 'DESIGN.md')
text = open(path).read()
by = {}
names = sorted(os.listdir(os.path.join(root, 'seeded')))
for i in names:
    by.setdefault(json.load(open(f'{root}/seeded/{i}/meta.json'))['property'], []).append(i)
table = "<!-- matrix -->\n| caught by (the property's own check, quick tier) | planted bugs |\n|---|---|\n"
for k in sorted(by):
    table += f"| {k} | {', '.join('`' + x + '`' for x in by[k])} |\n"
table += '<!-- /matrix -->'
text = re.sub(r'<!-- matrix -->.*<!-- /matrix -->', lambda m: table, text, flags=re.S)
text = re.sub(r'All \d+ pass the', f'All {len(names)} pass the', text)
open(path, 'w').write(text)
