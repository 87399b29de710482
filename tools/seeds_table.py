"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json
import os
import re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for name in os.listdir(f'{HERE}/seeded'):
    path = f'{HERE}/seeded/{name}/meta.json'
    if os.path.exists(path):
        with open(path) as f:
            meta = json.load(f)
        rows.append((meta['property'], name, meta['needs'], meta['what_it_breaks'], meta.get('also', '')))
rows.sort()
text = '| caught by | planted bug | needs | what it breaks |\n|---|---|---|---|\n'
for prop, name, needs, breaks, also in rows:
    text += f'| {prop}{" " + also if also else ""} | {name} | {needs} | {breaks} |\n'
with open(f'{HERE}/DESIGN.md') as f:
    design = f.read()
design = re.sub(r'(<!-- seeds -->\n).*?(<!-- /seeds -->)', lambda m: m[1] + text + m[2], design, flags=re.S)
with open(f'{HERE}/DESIGN.md', 'w') as f:
    f.write(design)
