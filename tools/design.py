#!/opt/venv/bin/python
"""Write DESIGN.md from tools/design_head.md, the property modules and the recorded runs."""
import glob
import importlib
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from mc import core
core.load_soynlp()

out = [open(os.path.join(VERIF, 'tools/design_head.md'), encoding='utf8').read()]
out.append('## Properties and how each is decided\n')
costs = json.load(open(os.path.join(VERIF, 'tools/costs.json'), encoding='utf8'))
for path in sorted(glob.glob(os.path.join(VERIF, 'mc/props/p[0-9][0-9].py'))):
    mod = importlib.import_module('mc.props.' + os.path.basename(path)[:-3])
    pid = mod.PROP['id']
    c = mod.CHECK
    out.append('### %s %s\n' % (pid, mod.PROP['title']))
    out.append('*Decided by* %s. %s\n' % (c['technique'], c['level_note']))
    out.append('*Why tests cannot:* %s\n' % mod.PROP['why_tests_cant'])
    quick = {h.name: h for h in mod.harnesses('quick')}
    deep = {h.name: h for h in mod.harnesses('thorough')}
    out.append('| harness | enumerated | bound (quick) | bound (thorough) |\n|---|---|---|---|')
    for name, h in deep.items():
        q = quick.get(name)
        out.append('| %s | %s | %s | %s |' % (name, (q or h).about, q.bound if q else '-', h.bound if not q or h.bound != q.bound else 'same' if len(list(q.roots)) == len(list(h.roots)) else 'same, more cases'))
    t = costs.get(pid, {})
    out.append('\n*Cost* (8 processes): quick %s, thorough %s.\n' % tuple('%d s' % max(1, round(t[k])) if k in t else '?' for k in ('quick', 'thorough')))
na = json.load(open(os.path.join(VERIF, 'tools/not_applicable.json'), encoding='utf8'))
out.append('## Not claimed\n')
for x in na:
    out.append('* **%s %s**: %s' % (x['prop']['id'], x['prop']['title'], x['reason']))
seeds = json.load(open(os.path.join(VERIF, 'tools/seed_results.json'), encoding='utf8'))
out.append('\n## Planted bugs and the checks that catch them\n')
out.append('Each was written from the statement and the code, confirmed to build, pass the stable tests and fail its own\ndemonstration, and run against the quick check of its property (`tools/seed.py run`).\n')
out.append('| bug | property | needs | caught by the quick check |\n|---|---|---|---|')
for d in sorted(os.listdir(os.path.join(VERIF, 'seeded'))):
    meta = json.load(open(os.path.join(VERIF, 'seeded', d, 'meta.json'), encoding='utf8'))
    r = seeds.get(d)
    out.append('| %s | %s | %s | %s |' % (d, meta['property'], meta['needs'].replace('|', '/').replace('\n', ' '), 'not run' if r is None else 'yes' if r['rc'] == 1 else 'NO'))
with open(os.path.join(VERIF, 'DESIGN.md'), 'w', encoding='utf8') as f:
    f.write('\n'.join(out) + '\n')
