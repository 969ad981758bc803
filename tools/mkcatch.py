"""Write tools/design_catch.md: the planted bugs of each property."""
import json
import os

TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for name in sorted(os.listdir(os.path.join(TOP, 'seeded'))):
    with open(os.path.join(TOP, 'seeded', name, 'meta.json')) as f:
        m = json.load(f)
    rows.setdefault(m['property'], []).append((name, m))
total = sum(map(len, rows.values()))
out = ['## Which checks catch which planted bugs', '',
       '%d planted bugs are kept under `seeded/`. Each was run against the '
       'check of its own property when planted, on the quick tier '
       '(`tools/catch.py`); those that were missed led to new workloads, '
       'after which they were caught. A last run of 260 of them on a fresh '
       'seed (11) caught all but C42-i, whose workload depended on the seed; '
       'that was changed, and it is caught since (seeds 1, 2 and 11). C25-i '
       'and C26-g came later and are caught on seeds 1, 2 and 3. The check '
       'that catches a bug is the one in its row.'
       % total, '', '| check | bugs caught | needs: what it breaks |',
       '| --- | --- | --- |']
for p in sorted(rows):
    out.append('| %s | %s | %s |' % (
        p, ' '.join(n for n, _ in rows[p]),
        '; '.join('%s: %s' % (m['needs'].rstrip('.'),
                              m['what_it_breaks'].rstrip('.'))
                  for _, m in rows[p]).replace('|', '/')))
with open(os.path.join(TOP, 'tools', 'design_catch.md'), 'w') as f:
    f.write('\n'.join(out) + '\n')
