#!/usr/bin/env python3
"""mkplanted.py RESULTS: rewrites the table of planted changes in DESIGN.md from the output of mutate.sh.

(Documentation only: no check reads seeded/.)
"""
import json, os, re, sys

top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for path in sys.argv[1:]:
    for line in open(path):
        m = re.match(r'(\S+) (C\d+) rc=(\d+) (\d+)s (\d+) ?(\S*)', line)
        if m:
            res[m.group(1)] = m.groups()[1:]


def cut(s, n=150):
    s = ' '.join(s.replace('|', '/').split())
    if len(s) <= n:
        return s
    return s[:n].rsplit(' ', 1)[0] + '...'


rows, caught, missed = [], 0, 0
for name in sorted(os.listdir(os.path.join(top, 'seeded'))):
    meta = json.load(open(os.path.join(top, 'seeded', name, 'meta.json')))
    r = res.get(name)
    if r is None:
        by = '?'
    elif r[1] == '1':
        by, caught = '%s %s' % (r[0], r[4]), caught + 1
    else:
        by, missed = 'not caught', missed + 1
    rows.append('| %s | %s | %s |' % (name, cut(meta['needs']), by))
text = '%d planted changes, %d caught by the quick check of their property, %d missed.\n\n' % (len(rows), caught, missed)
text += '| change | needs, in order to manifest | caught by (check, part that reported first) |\n|---|---|---|\n' + '\n'.join(rows) + '\n'
p = os.path.join(top, 'DESIGN.md')
s = open(p).read()
a, b = '<!-- planted: begin -->\n', '<!-- planted: end -->\n'
i, j = s.index(a) + len(a), s.index(b)
open(p, 'w').write(s[:i] + text + s[j:])
print(text.splitlines()[0], [r for r in rows if r.endswith(('? |', 'caught |'))])
