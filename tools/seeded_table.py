"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os

os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
MARK = '<!-- seeded table -->'
rows = []
for f in glob.glob('seeded/*/meta.json'):
    d = json.load(open(f))
    rows.append((d['property'], os.path.basename(os.path.dirname(f)), d['what_it_breaks'], d['needs']))
clean = lambda s: ' '.join(str(s).replace('|', '/').split())
text = [MARK, '', '## Planted bugs', '',
        'Each was written from the text of a property and the code, and confirmed (builds, passes the stable tests, its '
        'demonstration fails with it). The quick check of the property in the first column reports every one of them with '
        'VERIF_SEED=1; those marked in `git log` as having been missed at first are the reason for most of what the checks '
        'generate beyond ordinary histories.', '', '| caught by | planted bug | what it breaks | needs |', '|---|---|---|---|']
for p, i, a, b in sorted(rows):
    text.append('| {} | {} | {} | {} |'.format(p, i, clean(a), clean(b)))
s = open('DESIGN.md').read().split(MARK)[0]
open('DESIGN.md', 'w').write(s + '\n'.join(text) + '\n')
