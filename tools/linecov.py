#!/opt/venv/bin/python
"""Which lines of soynlp do the quick checks execute?  tools/linecov.py DIR [PXX...] runs the checks in-process
with sys.monitoring and lists the lines inside functions never executed (a development tool, not a check)."""
import ast
import glob
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = sys.argv[1]
if os.environ.get('LINECOV_CHILD'):
    sys.path.insert(0, VERIF)
    sys.argv = ['mc'] + sys.argv[2:]
    M = sys.monitoring
    M.use_tool_id(3, 'linecov')
    files = {}

    def line(code, n):
        f = code.co_filename
        if '/soynlp/' in f:
            p = os.getpid()
            if p not in files:
                files.clear()
                files[p] = open('%s/%d.cov' % (out, p), 'a')
            files[p].write('%s:%d\n' % (f.split('/soynlp/', 1)[1], n))
            files[p].flush()
        return M.DISABLE
    M.register_callback(3, M.events.LINE, line)
    M.set_events(3, M.events.LINE)
    import runpy
    runpy.run_module('mc', run_name='__main__', alter_sys=True)
else:
    os.makedirs(out, exist_ok=True)
    props = sys.argv[2:] or [os.path.basename(p)[:-3].upper() for p in sorted(glob.glob(VERIF + '/mc/props/p[0-9][0-9].py'))]
    for p in props:
        r = subprocess.run([sys.executable, __file__, out, p, '--tier', 'quick'], env=dict(os.environ, LINECOV_CHILD='1', PYTHONHASHSEED='0'), cwd=VERIF, capture_output=True, text=True)
        print(p, r.returncode, r.stderr[-300:], flush=True)
    hit = set()
    for f in glob.glob(out + '/*.cov'):
        hit.update(open(f).read().split())
    root = '/repo/soynlp/'
    for f in sorted(glob.glob(root + '**/*.py', recursive=True)):
        rel = f[len(root):]
        src = open(f, encoding='utf8').read()
        missing = []
        for node in ast.walk(ast.parse(src)):
            if isinstance(node, (ast.FunctionDef,)):
                for x in ast.walk(node):
                    if isinstance(x, ast.stmt) and x is not node and not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)) and not isinstance(x, (ast.FunctionDef, ast.Global, ast.Nonlocal)):
                        if '%s:%d' % (rel, x.lineno) not in hit:
                            missing.append(x.lineno)
        if missing:
            lines = src.split('\n')
            print('== %s' % rel)
            for n in sorted(set(missing)):
                print('  %4d %s' % (n, lines[n - 1].strip()[:110]))
