"""Section 6 of DESIGN.md from seeded/*/meta.json and tools/catches.tsv (id, caught: kind of alarm, remark)."""
import json, os
here = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(here)
rows = {}
for l in open(here + '/catches.tsv'):
    f = l.rstrip('\n').split('\t')
    rows[f[0]] = f[1:] + [''] * (3 - len(f))
ids = sorted(d for d in os.listdir(V + '/seeded')) if os.path.isdir(V + '/seeded') else []
out = []
n = sum(1 for i in ids if rows.get(i, ['?'])[0] not in ('?', 'missed'))
out.append('%d planted bugs are kept under `seeded/`; %d are caught by the check of their property (quick tier, seed 1). '
           'The alarm is the kind in the VIOLATION output; "strengthened" marks those the check missed at first.\n' % (len(ids), n))
out.append('| bug | check | what it needs | alarm |\n|---|---|---|---|')
for i in ids:
    m = json.load(open(V + '/seeded/%s/meta.json' % i))
    r = rows.get(i, ['?', ''])
    out.append('| %s | %s | %s | %s%s |' % (i, m['property'], m['needs'].replace('|', '/').replace('\n', ' '), r[0], '; ' + r[1] if r[1] else ''))
p = V + '/DESIGN.md'; s = open(p).read()
a, b = s.index('<!-- CATCHES -->'), s.find('<!-- END CATCHES -->')
tail = s[b:] if b >= 0 else '<!-- END CATCHES -->\n'
open(p, 'w').write(s[:a] + '<!-- CATCHES -->\n' + '\n'.join(out) + '\n' + tail)
print(len(ids), 'planted', n, 'caught')
