"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '## 7. Planted bugs, and the checks that catch them'


def main():
    rows = []
    for f in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
        m = json.load(open(f))
        rows.append((m['property'], os.path.basename(os.path.dirname(f)), m['needs'], m['what_it_breaks']))
    rows.sort()
    path = os.path.join(ROOT, 'DESIGN.md')
    text = open(path).read().split(HEAD)[0].rstrip() + '\n\n' + HEAD + '\n\n'
    text += 'Each was written from the property and the code, and is reported by the check of its own property.\n\n'
    text += '| check | planted bug | needs | what it breaks |\n|---|---|---|---|\n'
    text += ''.join('| %s | %s | %s | %s |\n' % r for r in rows)
    open(path, 'w').write(text)


main()
