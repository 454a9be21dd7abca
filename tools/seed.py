#!/opt/venv/bin/python
"""Make and test planted bugs.

  tools/seed.py add FILE.py      FILE.py defines SEEDS = [dict(id, prop, edits=[(path, old, new)], demo, needs, breaks)]
  tools/seed.py run [ID ...]     run each seed's check (quick tier) on a scratch copy with the patch applied
A seed is kept (seeded/<id>/) only if it changes original lines, compiles, passes the stable tests, and its demo
passes on the clean tree and fails on the patched one.  No check reads seeded/."""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BASE = subprocess.check_output(['git', '-C', REPO, 'rev-list', '--max-parents=0', 'HEAD'], text=True).strip()
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
DEMO_SH = '''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent PYTHONIOENCODING=utf-8 OMP_NUM_THREADS=1
exec timeout 250 /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def copy_repo(where):
    shutil.copytree(REPO, where, ignore=shutil.ignore_patterns('__pycache__'), symlinks=True)


def tests(tree):
    out = os.path.join(tree, '..', 'out.json')
    script = open('/opt/vp/test.sh').read().replace('/repo', tree).replace('PYTHONPATH=/opt/vp/plugin', 'PYTHONPATH=/opt/vp/plugin:' + tree)
    p = subprocess.run(['bash', '-c', script, 'test.sh', out], capture_output=True, text=True, env=ENV)
    try:
        passed = set(json.load(open(out))['passed'])
    except Exception:
        return ['no result: ' + p.stderr[-300:]]
    return sorted(t for t in STABLE if t not in passed)


def demo(tree, folder):
    env = {k: v for k, v in os.environ.items() if k not in ('PYTHONPATH', 'PYTHONHASHSEED')}
    p = subprocess.run(['bash', os.path.join(folder, 'demo.sh')], cwd=tree, capture_output=True, text=True, env=env)
    return p.returncode, (p.stdout + p.stderr)[-600:]


def original_lines(tree, diff):
    """All removed lines come from the base commit."""
    bad, removed, path, no = [], 0, None, 0
    for line in diff.splitlines():
        if line.startswith('--- a/'):
            path = line[6:]
        m = re.match(r'@@ -(\d+)', line)
        if m:
            no = int(m.group(1))
        elif line.startswith('-') and not line.startswith('---'):
            removed += 1
            b = subprocess.check_output(['git', '-C', REPO, 'blame', '-l', '-s', '-L', '%d,%d' % (no, no), 'HEAD', '--', path], text=True)
            if not b.lstrip('^').startswith(BASE[:39]):
                bad.append((path, no))
            no += 1
        elif line.startswith(' '):
            no += 1
    return bad, removed


def add(seed):
    tmp = tempfile.mkdtemp(prefix='seed-')
    problems = []
    try:
        tree = os.path.join(tmp, 'tree')
        copy_repo(tree)
        folder = os.path.join(tmp, 'demo')
        os.mkdir(folder)
        open(os.path.join(folder, 'demo.sh'), 'w').write(DEMO_SH)
        open(os.path.join(folder, 'demo.py'), 'w', encoding='utf8').write(seed['demo'].lstrip('\n'))
        rc, out = demo(tree, folder)
        if rc:
            problems.append('demo fails on the clean tree: ' + out)
        for path, old, new in seed['edits']:
            p = os.path.join(tree, path)
            s = open(p, encoding='utf8', newline='').read()
            if s.count(old) != 1:
                return seed['id'], ['%s: %d matches of %r' % (path, s.count(old), old)]
            open(p, 'w', encoding='utf8', newline='').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', tree, 'diff', '--no-color'], capture_output=True).stdout
        bad, removed = original_lines(tree, diff.decode('utf8'))
        if bad:
            problems.append('changes lines that are not original: %s' % bad)
        if not removed:
            problems.append('note: only adds lines')
        rc, out = demo(tree, folder)
        if rc == 0:
            problems.append('demo passes on the patched tree')
        elif rc == 124:
            problems.append('note: demo times out')
        if '-v' in sys.argv:
            print(seed['id'], out)
        failed = tests(tree)
        if failed:
            problems.append('stable tests fail: %s' % failed)
        if [p for p in problems if not p.startswith('note')]:
            return seed['id'], problems
        dst = os.path.join(VERIF, 'seeded', seed['id'])
        os.makedirs(dst, exist_ok=True)
        open(os.path.join(dst, 'patch.diff'), 'wb').write(diff)
        for f in ('demo.sh', 'demo.py'):
            shutil.copy(os.path.join(folder, f), os.path.join(dst, f))
        os.chmod(os.path.join(dst, 'demo.sh'), 0o755)
        json.dump(dict(property=seed['prop'], needs=seed['needs'], what_it_breaks=seed['breaks']),
                  open(os.path.join(dst, 'meta.json'), 'w', encoding='utf8'), ensure_ascii=False, indent=1)
        return seed['id'], problems
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(sid, tier='quick'):
    folder = os.path.join(VERIF, 'seeded', sid)
    prop = json.load(open(os.path.join(folder, 'meta.json')))['property']
    tmp = tempfile.mkdtemp(prefix='seedrun-')
    try:
        tree = os.path.join(tmp, 'tree')
        copy_repo(tree)
        subprocess.run(['git', '-C', tree, 'apply', os.path.join(folder, 'patch.diff')], check=True)
        p = subprocess.run([os.path.join(VERIF, 'check'), prop, '--tier', tier], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=tree))
        lines = [l for l in p.stdout.splitlines() if 'VIOLATION' in l]
        return prop, p.returncode, lines[0] if lines else '', (p.stdout + p.stderr)[-300:]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    cmd, args = sys.argv[1], [a for a in sys.argv[2:] if not a.startswith('-')]
    if cmd == 'add':
        ns = {}
        exec(compile(open(args[0], encoding='utf8').read(), args[0], 'exec'), ns)
        seeds = [s for s in ns['SEEDS'] if not args[1:] or s['id'] in args[1:]]
        with concurrent.futures.ThreadPoolExecutor(6) as ex:
            for sid, problems in ex.map(add, seeds):
                print('%-28s %s' % (sid, 'ok' if not problems else ' | '.join(problems)), flush=True)
        args = [s['id'] for s in seeds if os.path.isdir(os.path.join(VERIF, 'seeded', s['id']))]
    if '--norun' in sys.argv:
        return
    if cmd == 'run' and not args:
        args = sorted(os.listdir(os.path.join(VERIF, 'seeded')))
    res_path = os.path.join(VERIF, 'tools', 'seed_results.json')
    for sid in args:
        prop, rc, line, tail = run(sid)
        try:
            res = json.load(open(res_path))
        except Exception:
            res = {}
        res[sid] = dict(property=prop, rc=rc)
        json.dump(res, open(res_path, 'w'), indent=1, sort_keys=True)
        print('%-28s %s rc=%d %s' % (sid, prop, rc, 'CAUGHT' if rc == 1 and line else 'MISSED ' + tail if rc == 0 else 'BROKEN ' + tail), flush=True)


main()
