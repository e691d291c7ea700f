"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import collections
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = collections.defaultdict(list)
for b in sorted(os.listdir(HERE + '/seeded')):
    with open('%s/seeded/%s/meta.json' % (HERE, b)) as f:
        rows[json.load(f)['property']].append(b)
new = '| property | planted bugs caught |\n|---|---|\n' + ''.join(
    '| %s | %s |\n' % (p, ', '.join(rows[p])) for p in sorted(rows))
with open(HERE + '/DESIGN.md') as f:
    text = f.read()
text = re.sub(r'\| property \| planted bugs caught \|\n\|---\|---\|\n(\|.*\n)*',
              lambda m: new, text)
with open(HERE + '/DESIGN.md', 'w') as f:
    f.write(text)
print(sum(map(len, rows.values())), 'planted bugs')
