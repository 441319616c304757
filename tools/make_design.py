"""DESIGN.md = design/head.md (sections 1-2) + design/tail.md with the table of seeded changes filled in from seeded/*/meta.json"""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r = json.load(open(V + '/tools/seed_results.json'))
rows = []
for d in sorted(glob.glob(V + '/seeded/*/')):
    n = d.rstrip('/').split('/')[-1]; m = json.load(open(d + 'meta.json')); rows.append('| %s | %s | %s |' % (n, m['needs'].replace('|', '/'), r.get(n, '%s, caught' % m['property'])))
t = open(V + '/tools/design_tail.md').read().replace('@@SEEDS@@', '\n'.join(rows))
open(V + '/DESIGN.md', 'w').write(open(V + '/tools/design_head.md').read().rstrip() + '\n' + t)
