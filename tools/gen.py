#!/opt/venv/bin/python
"""Regenerate properties.jsonl and MANIFEST.json from the property modules (mc/props/pXX.py)
and from tools/not_applicable.json (properties that are written down but not claimed)."""
import glob
import importlib
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True

props, checks = [], []
for path in sorted(glob.glob(os.path.join(VERIF, 'mc/props/p[0-9][0-9].py'))):
    mod = importlib.import_module('mc.props.' + os.path.basename(path)[:-3])
    props.append(mod.PROP)
    c = mod.CHECK
    checks.append(dict(property=mod.PROP['id'], quick_cmd='./check %s --tier quick' % mod.PROP['id'],
                       thorough_cmd='./check %s --tier thorough' % mod.PROP['id'],
                       evidence_file='evidence/%s.json' % mod.PROP['id'],
                       technique='model checking: ' + c['technique'], level=c.get('level', 'model_checking'), level_note=c['level_note']))
na = json.load(open(os.path.join(VERIF, 'tools/not_applicable.json'), encoding='utf8'))
for x in na:
    props.append(x['prop'])
with open(os.path.join(VERIF, 'properties.jsonl'), 'w', encoding='utf8') as f:
    for p in props:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
manifest = dict(version=1, setup_cmd='./setup.sh', checks=checks,
                not_applicable=[dict(property=x['prop']['id'], reason=x['reason']) for x in na],
                notes='No hooks in /repo are needed: schedules are controlled through sys.settrace, hash seeds through the environment, files through scratch directories.')
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w', encoding='utf8') as f:
    json.dump(manifest, f, ensure_ascii=False, indent=1)
    f.write('\n')
print('%d properties, %d checks' % (len(props), len(checks)))
