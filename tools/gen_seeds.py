""" Rewrites the table of planted bugs in DESIGN.md (section 6) from seeded/*/meta.json. Not used by any check. """
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NAME = os.path.join(ROOT, 'DESIGN.md')
HEAD = '## 6. Planted bugs'

rows = []
for d in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
    with open(os.path.join(ROOT, 'seeded', d, 'meta.json')) as f:
        m = json.load(f)
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'].replace('|', '/'), m.get('missed', 'caught')))

with open(NAME) as f:
    text = f.read()
text = text.split(HEAD)[0].rstrip() + '\n\n' + HEAD + '''

Each was written from the text of a property and the code, confirmed with a demonstration that fails with it and passes without
it while the stable tests pass, and run against the check of its property (`/verif/tools/seed.py`). The last column says
what the check of that property reports today; those that were first missed (about a third) led to new scenarios or rules.

| Planted bug | Check | What it breaks | Result |
|---|---|---|---|
''' + '\n'.join(rows) + '\n'
with open(NAME, 'w') as f:
    f.write(text)
print(len(rows), 'planted bugs')
