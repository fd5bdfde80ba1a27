"""Fills section 6 of DESIGN.md from seeded/*/meta.json (not used by any check)."""
import glob
import json
import os

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['Each was planted from the text of the property; tools: the demonstration passes on the tree and '
        'fails with the patch, the 236 tests pass with it. "caught" names the check that reports it '
        '(quick tier).', '',
        '| bug | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
for d in sorted(glob.glob(root + '/seeded/*/meta.json')):
    with open(d) as f:
        m = json.load(f)
    name = d.split('/')[-2]
    rows.append('| %s | %s | %s | %s | %s |' % (name, m['property'], m['what_it_breaks'].replace('|', '\\|'),
                                           m['needs'].replace('|', '\\|'), m.get('caught_by', m['property'])))
rows += ['', 'Missed at first, which led to stronger checks: c05-none (defaults of None added to C05), c19-none '
         '(harness `values` added to C19). See the notes at the end of this section for those found later.']
path = root + '/DESIGN.md'
with open(path) as f:
    s = f.read()
a, rest = s.split('## 6. Planted bugs\n', 1)
old, b = rest.split('## 7. ', 1)
notes = ''
if '<!-- notes -->' in old:
    notes = '<!-- notes -->' + old.split('<!-- notes -->')[1].rstrip('\n') + '\n'
with open(path, 'w') as f:
    f.write(a + '## 6. Planted bugs\n\n' + '\n'.join(rows) + '\n\n' + notes + '\n## 7. ' + b)
