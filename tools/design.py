"""Writes DESIGN.md: the hand-written text of design.txt parts, plus the tables that follow from
MANIFEST / seeded / known_findings."""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    text = open(os.path.join(ROOT, 'tools', 'design.txt')).read()
    caught = json.load(open(os.path.join(ROOT, 'tools', 'caught.json')))
    rows = []
    for m in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
        name = m.split(os.sep)[-2]
        d = json.load(open(m))
        c = caught.get(name, {})
        rows.append('| %s | %s | %s | %s |' % (name, d['property'], c.get('by', '?'),
                                               c.get('note', 'at once')))
    table = '\n'.join(['| change | property | caught by | first run |', '|---|---|---|---|'] + rows)
    fixed = [l.strip() for l in open(os.path.join(ROOT, 'known_findings.txt'))
             if l.startswith('fixed:')]
    ftable = '\n'.join('* ' + l[len('fixed: '):] for l in fixed)
    known = [json.loads(l) for l in open(os.path.join(ROOT, 'known_findings.txt'))
             if l.startswith('{')]
    ktable = '\n'.join('* %s: %s' % (k['property'], k['what']) for k in known) or '* none'
    with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as f:
        f.write(text.replace('@SEEDS@', table).replace('@FIXED@', ftable).replace('@KNOWN@', ktable))


main()
