#!/opt/venv/bin/python
"""Mutation campaign (a development tool, not a check): make single-point changes to a source file and list
those that no registered check of the given properties notices.

  tools/mutate.py OUT.json FILE PROP[,PROP...] [--lines A-B] [--every N] [--more]
"""
import ast
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SWAP = {ast.Lt: ['<='], ast.LtE: ['<'], ast.Gt: ['>='], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*', ast.BitOr: '&', ast.BitAnd: '|', ast.FloorDiv: '*', ast.Mod: '*'}


def mutants(src, tree_lines):
    tree = ast.parse(src)
    lines = src.split('\n')
    starts, n = [], 0
    bs = [len(l.encode()) + 1 for l in lines]
    for b in bs:
        starts.append(n)
        n += b
    raw = src.encode()
    docs = set()
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Module)) and node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant):
            docs.add(node.body[0].value)
    skip = set()
    for node in ast.walk(tree):
        text = ast.unparse(node) if isinstance(node, (ast.If, ast.Expr)) else ''
        if isinstance(node, ast.If) and 'verbose' in ast.unparse(node.test) or isinstance(node, ast.Expr) and text.startswith(('print', 'sys.stdout')):
            for x in ast.walk(node):
                skip.add(x)
        if isinstance(node, ast.If) and 'sys.version' in ast.unparse(node.test):
            for y in node.body + [node.test]:
                for x in ast.walk(y):
                    skip.add(x)
        if isinstance(node, ast.FunctionDef) and node.name in ('_print_stats', '_print', 'get_process_memory', 'get_available_memory', 'print_status'):
            for x in ast.walk(node):
                skip.add(x)
        if isinstance(node, (ast.Import, ast.ImportFrom)):
            skip.add(node)

    def pos(node, end=False):
        return starts[(node.end_lineno if end else node.lineno) - 1] + (node.end_col_offset if end else node.col_offset)

    def sub(a, b, new, what, node):
        return dict(line=node.lineno, what=what, src=(raw[:a] + new.encode() + raw[b:]).decode())

    out = []
    for node in ast.walk(tree):
        if node in skip or not hasattr(node, 'lineno'):
            continue
        if isinstance(node, ast.Compare):
            left = node.left
            for op, right in zip(node.ops, node.comparators):
                a, b = pos(left, True), pos(right)
                old = raw[a:b].decode()
                for new in SWAP[type(op)]:
                    lead = old[:len(old) - len(old.lstrip(' )'))]
                    tail = old[len(old.rstrip(' (')):]
                    out.append(sub(a, b, lead + ' ' + new + ' ' + tail, 'compare %s -> %s' % (old.strip(), new), node))
                left = right
        elif isinstance(node, ast.BoolOp):
            for l, r in zip(node.values, node.values[1:]):
                a, b = pos(l, True), pos(r)
                old = raw[a:b].decode()
                w, z = ('and', 'or') if isinstance(node.op, ast.And) else ('or', 'and')
                if old.count(w) == 1:
                    out.append(sub(a, b, old.replace(w, z), '%s -> %s' % (w, z), node))
        elif isinstance(node, ast.BinOp) and type(node.op) in BIN:
            a, b = pos(node.left, True), pos(node.right)
            old = raw[a:b].decode()
            if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant):
                continue
            sym = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Pow: '**', ast.BitOr: '|', ast.BitAnd: '&', ast.FloorDiv: '//', ast.Mod: '%'}[type(node.op)]
            if old.count(sym) == 1:
                out.append(sub(a, b, old.replace(sym, BIN[type(node.op)]), '%s -> %s' % (sym, BIN[type(node.op)]), node))
        elif isinstance(node, ast.AugAssign) and isinstance(node.op, (ast.Add, ast.Sub)):
            a, b = pos(node.target, True), pos(node.value)
            old = raw[a:b].decode()
            out.append(sub(a, b, old.replace('+=', '=') if '+=' in old else old.replace('-=', '+='), 'augmented', node))
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            a, b = pos(node), pos(node.operand)
            out.append(sub(a, b, '', 'not removed', node))
        elif isinstance(node, ast.Constant) and node not in docs:
            a, b = pos(node), pos(node, True)
            v = node.value
            if isinstance(v, bool):
                out.append(sub(a, b, str(not v), '%r -> %r' % (v, not v), node))
            elif isinstance(v, int):
                out.append(sub(a, b, str(v + 1), '%r -> %r' % (v, v + 1), node))
                if v > 0:
                    out.append(sub(a, b, str(v - 1), '%r -> %r' % (v, v - 1), node))
            elif isinstance(v, float):
                out.append(sub(a, b, repr(v + 0.25), '%r -> %r' % (v, v + 0.25), node))
        elif isinstance(node, (ast.Continue, ast.Break)):
            a, b = pos(node), pos(node, True)
            out.append(sub(a, b, 'pass', 'no ' + raw[a:b].decode(), node))
        elif isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
            a, b = pos(node), pos(node, True)
            out.append(sub(a, b, 'pass', 'no call', node))
        elif isinstance(node, ast.If):
            a, b = pos(node.test), pos(node.test, True)
            for v in ('True', 'False'):
                out.append(sub(a, b, v, 'if ' + v, node))
        elif isinstance(node, ast.comprehension) if False else False:
            pass
        elif isinstance(node, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in node.generators:
                for c in g.ifs:
                    a, b = pos(c), pos(c, True)
                    out.append(sub(a, b, 'True', 'filter %s removed' % raw[a:b].decode()[:40], c))
        elif isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ('min', 'max'):
            a, b = pos(node.func), pos(node.func, True)
            out.append(sub(a, b, 'max' if node.func.id == 'min' else 'min', 'min <-> max', node))
        elif isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in ('strip', 'lower', 'split', 'copy') and not node.args:
            a, b = pos(node.func.value, True), pos(node, True)
            if node.func.attr != 'split':
                out.append(sub(a, b, '', 'no .%s()' % node.func.attr, node))
        elif isinstance(node, ast.keyword) and node.arg == 'reverse':
            pass
    seen, res = set(), []
    for m in out:
        if tree_lines and not tree_lines[0] <= m['line'] <= tree_lines[1] or m['src'] in seen or m['src'] == src:
            continue
        try:
            compile(m['src'], 'x', 'exec')
        except SyntaxError:
            continue
        seen.add(m['src'])
        res.append(m)
    return sorted(res, key=lambda m: m['line'])


MEMO = """

def _memo(f, mode):
    import functools
    box = {}

    @functools.wraps(f)
    def g(*a, **k):
        if mode == 'own':
            where = a[0].__dict__.setdefault('_memo_' + f.__name__, {})
            key = (a[1:], tuple(sorted(k.items())))
        elif mode == 'first':
            where = a[0].__dict__.setdefault('_memo_' + f.__name__, {})
            key = a[1]
        elif mode == 'class':
            where, key = box, (a[1:], tuple(sorted(k.items())))
        elif mode == 'func':
            where, key = box, (a, tuple(sorted(k.items())))
        else:
            where, key = box, a[0]
        try:
            hash(key)
        except TypeError:
            return f(*a, **k)
        if key not in where:
            where[key] = f(*a, **k)
        return where[key]
    return g
"""


def more_mutants(src, tree_lines):
    """Caches, missing copies, signs, slice bounds."""
    tree = ast.parse(src)
    res = []
    for node in tree.body:
        if isinstance(node, ast.FunctionDef) and node.args.args:
            for mode in ('func', 'func-first')[:1 + (len(node.args.args) > 1)]:
                res.append(dict(line=node.lineno, what='memo %s %s' % (node.name, mode), src=src + MEMO + '\n%s = _memo(%s, %r)\n' % (node.name, node.name, mode)))
        if isinstance(node, ast.ClassDef):
            for f in node.body:
                if isinstance(f, ast.FunctionDef) and not f.decorator_list and not f.name.startswith('__') and not f.name.startswith('_print') and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f)):
                    if not any(isinstance(x, ast.Return) and x.value is not None for x in ast.walk(f)):
                        continue
                    n = len(f.args.args)
                    for mode in ('own', 'class') + (('first',) if n > 2 else ()):
                        res.append(dict(line=f.lineno, what='memo %s.%s %s' % (node.name, f.name, mode), src=src + MEMO + '\n%s.%s = _memo(%s.%s, %r)\n' % (node.name, f.name, node.name, f.name, mode)))
    lines = src.split('\n')
    starts, n = [], 0
    for l in lines:
        starts.append(n)
        n += len(l.encode()) + 1
    raw = src.encode()

    def pos(node, end=False):
        return starts[(node.end_lineno if end else node.lineno) - 1] + (node.end_col_offset if end else node.col_offset)

    def sub(node, new, what):
        a, b = pos(node), pos(node, True)
        res.append(dict(line=node.lineno, what=what, src=(raw[:a] + new.encode() + raw[b:]).decode()))

    def text(node):
        return raw[pos(node):pos(node, True)].decode()

    for node in ast.walk(tree):
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ('dict', 'list', 'set', 'tuple', 'sorted') and len(node.args) == 1 and not node.keywords and not isinstance(node.args[0], ast.GeneratorExp):
            sub(node, text(node.args[0]), 'no %s()' % node.func.id)
        elif isinstance(node, ast.DictComp) and isinstance(node.generators[0].iter, ast.Call) and text(node.generators[0].iter).endswith('.items()') and not node.generators[0].ifs and len(node.generators) == 1:
            if ast.unparse(node.key) + ', ' + ast.unparse(node.value) == ast.unparse(node.generators[0].target).strip('()'):
                sub(node, text(node.generators[0].iter)[:-8], 'no copy')
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub) and not isinstance(node.operand, ast.Constant):
            sub(node, text(node.operand), 'no minus')
        elif isinstance(node, ast.Slice):
            for part, name in ((node.lower, 'lower'), (node.upper, 'upper')):
                if part is not None and not isinstance(part, (ast.Constant, ast.UnaryOp)):
                    sub(part, text(part) + ' + 1', 'slice %s + 1' % name)
                    sub(part, 'max(0, ' + text(part) + ' - 1)', 'slice %s - 1' % name)
        elif isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ('min', 'max') and len(node.args) == 2:
            sub(node, text(node.args[0]), '%s: first only' % node.func.id)
            sub(node, text(node.args[1]), '%s: second only' % node.func.id)
        elif isinstance(node, ast.Return) and node.value is not None and isinstance(node.value, ast.BoolOp):
            for v in node.value.values:
                sub(node.value, text(v), 'return one operand')
        elif isinstance(node, ast.IfExp):
            sub(node, text(node.body), 'ifexp: first')
            sub(node, text(node.orelse), 'ifexp: second')
        elif isinstance(node, ast.BoolOp):
            for v in node.values:
                sub(node, text(v), 'one operand')
        elif isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in ('update', 'add', 'append', 'extend', 'pop', 'sort') and False:
            pass
    seen, out = set(), []
    for m in res:
        if tree_lines and not tree_lines[0] <= m['line'] <= tree_lines[1] or m['src'] in seen or m['src'] == src:
            continue
        try:
            compile(m['src'], 'x', 'exec')
        except SyntaxError:
            continue
        seen.add(m['src'])
        out.append(m)
    return sorted(out, key=lambda m: m['line'])


def main():
    out, path, props = sys.argv[1:4]
    every, lines = 1, None
    for i, a in enumerate(sys.argv):
        if a == '--every':
            every = int(sys.argv[i + 1])
        if a == '--lines':
            lines = tuple(int(x) for x in sys.argv[i + 1].split('-'))
    src = open('/repo/' + path, encoding='utf8').read()
    ms = (more_mutants if '--more' in sys.argv else mutants)(src, lines)[::every]
    print('%d mutants of %s' % (len(ms), path), flush=True)
    free, lock = list(range(8)), threading.Lock()
    base = '/tmp/mut/%s' % path.replace('/', '_')
    for k in free:
        shutil.rmtree('%s/%d' % (base, k), ignore_errors=True)
        shutil.copytree('/repo', '%s/%d' % (base, k), ignore=shutil.ignore_patterns('__pycache__', '.git', 'data', '*.ipynb'), symlinks=True)

    verif = base + '/verif'
    shutil.rmtree(verif, ignore_errors=True)
    shutil.copytree(VERIF, verif, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', 'replay'))

    def one(m):
        with lock:
            k = free.pop()
        tree = '%s/%d' % (base, k)
        try:
            with open('%s/%s' % (tree, path), 'w', encoding='utf8') as f:
                f.write(m['src'])
            for p in props.split(','):
                env = dict(os.environ, VERIF_REPO=tree, VERIF_PROCS='1', VERIF_STOP='0.1', VERIF_TIER='quick', VERIF_SEED='1')
                try:
                    r = subprocess.run([verif + '/check', p, '--tier', 'quick'], env=env, capture_output=True, text=True, timeout=1500)
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = 'timeout'
                if rc != 0:
                    return p, rc
            return None, 0
        finally:
            with open('%s/%s' % (tree, path), 'w', encoding='utf8') as f:
                f.write(src)
            with lock:
                free.append(k)

    left = []
    old = src.split('\n')
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get('MUT_JOBS', 8))) as ex:
        for m, (p, rc) in zip(ms, ex.map(one, ms)):
            if rc != 1:
                new = m['src'].split('\n')
                line = next((b for a, b in zip(old, new) if a != b), '')
                left.append(dict(line=m['line'], what=m['what'], rc=rc, prop=p, text=line.strip(), src=m['src']))
                print('SURVIVES %s:%d [%s] rc=%s %s' % (path, m['line'], m['what'], rc, line.strip()[:140]), flush=True)
    print('%s: %d of %d survive' % (path, len(left), len(ms)), flush=True)
    json.dump([dict(l, src=None) for l in left], open(out, 'w'), ensure_ascii=False, indent=1)
    shutil.rmtree(base, ignore_errors=True)


main()
