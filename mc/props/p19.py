"""P19: pointwise mutual information."""
import itertools
import math

from mc import gen
from mc.core import Harness

PROP = dict(
    id='P19',
    title='PMI values equal the definition for every cell',
    statement=(
        'pmi returns the row probabilities (row sum over total), the column probabilities actually used (the given ones or column sum over total, raised to beta and renormalised when beta < 1) and a matrix of the shape of the input whose cell (x, y) is log(p(x,y) / (p(x) * (p(y) + alpha))) for every nonzero count whose value is at least min_pmi, and 0 in every other cell; in particular no cell receives another cell\'s value and zeros stored in the input count as absent. '
        'The memory-friendly variant returns the same values, and the input matrix and the given probabilities are never changed.'),
    quantifier=dict(over=['inputs', 'configurations'], text='all nonnegative count matrices with a positive total, thresholds, smoothing parameters and given column probabilities'),
    why_tests_cant='The existing test only runs pmi once on a corpus; alignment, empty rows or columns and thresholds need all small matrices.',
    anchors=dict(files=['soynlp/word/_pmi.py'],
                 mechanism=[dict(name='pmi', where='soynlp/word/_pmi.py'), dict(name='pmi_memory_friendly', where='soynlp/word/_pmi.py')],
                 state=[], observe_at=['soynlp.word.pmi', 'soynlp.word._pmi.pmi_memory_friendly'], hook_needed=None))

CHECK = dict(
    technique='exhaustive enumeration of small count matrices x parameters on the real code against the per-cell definition',
    level_note='All 2x2, 2x3, 3x2 and (thorough) 3x3 matrices with cells 0, 1, 3 and every set of explicitly stored zeros up to a bound, under 4 thresholds, 2 alphas, 3 betas and 2 column-probability choices. Cells within 1e-9 of the threshold may fall on either side.',
    assumptions=['a zero column probability with a zero alpha is only exercised where the column is empty'])


def reference(cells, n, m, py, min_pmi, alpha, beta):
    total = sum(sum(r) for r in cells)
    px = [sum(r) / total for r in cells]
    if py is None:
        py = [sum(cells[i][j] for i in range(n)) / total for j in range(m)]
    if beta < 1:
        py = [p ** beta for p in py]
        s = sum(py)
        py = [p / s for p in py]
    out = {}
    for i in range(n):
        for j in range(m):
            if cells[i][j]:
                out[i, j] = math.log(cells[i][j] / total / (px[i] * (py[j] + alpha)))
    return px, py, out


def harnesses(tier):
    import numpy as np
    from scipy.sparse import csr_matrix
    from soynlp.word import pmi
    from soynlp.word._pmi import pmi_memory_friendly
    deep = tier == 'thorough'
    shapes = [(1, 1), (1, 3), (2, 2), (2, 3), (3, 2)]
    params = [(p, a, b) for p in (0, -1, 0.5, -20) for a in (0.0, 0.25) for b in (1, 0.5, 0.75)]

    def build(cells, n, m, zeros):
        rows, cols, data = [], [], []
        for i in range(n):
            for j in range(m):
                if cells[i][j] or (i * m + j) in zeros:
                    rows.append(i)
                    cols.append(j)
                    data.append(cells[i][j])
        x = csr_matrix((np.asarray(data, dtype=float if sum(data) % 2 else int), (rows, cols)), shape=(n, m))
        return x

    def compare(f, name, x, cells, n, m, py, min_pmi, alpha, beta, rec):
        kw = {}
        if py is not None:
            kw['py'] = np.asarray([py])
        if min_pmi:
            kw['min_pmi'] = min_pmi
        if alpha:
            kw['alpha'] = alpha
        if beta != 1:
            kw['beta'] = beta
        what = '%s of %r, py=%r, min_pmi=%r, alpha=%r, beta=%r' % (name, cells, py, min_pmi, alpha, beta)
        before = (x.data.tolist(), x.indices.tolist(), x.indptr.tolist())
        got, gx, gy = f(x, **kw)
        px, wy, want = reference(cells, n, m, py, min_pmi, alpha, beta)
        rec.check((x.data.tolist(), x.indices.tolist(), x.indptr.tolist()) == before, what + ': the input matrix was changed')
        if py is not None:
            rec.check(kw['py'].tolist() == [py], what + ': the given probabilities were changed')
        rec.equal(tuple(got.shape), (n, m), what + ': shape')
        gx, gy = np.asarray(gx).reshape(-1), np.asarray(gy).reshape(-1)
        rec.check(len(gx) == n and len(gy) == m, what + ': sizes of the probabilities')
        for i in range(n):
            rec.close(float(gx[i]), px[i], what + ': row probability %d' % i)
        for j in range(m):
            rec.close(float(gy[j]), wy[j], what + ': column probability %d' % j)
        dense = got.toarray()
        for i in range(n):
            for j in range(m):
                v = want.get((i, j))
                g = float(dense[i, j])
                if v is None or v < min_pmi - 1e-9:
                    rec.check(abs(g) < 1e-12, '%s: cell (%d, %d) is %r instead of 0 (value %r)' % (what, i, j, g, v))
                elif v < min_pmi + 1e-9:
                    rec.check(abs(g) < 1e-9 or abs(g - v) < 1e-9, '%s: cell (%d, %d) is %r, value %r at the threshold' % (what, i, j, g, v))
                else:
                    rec.check(abs(g - v) < 1e-9, '%s: cell (%d, %d) is %r, the definition gives %r' % (what, i, j, g, v))
                rec.step()

    def run(case, rec):
        n, m, flat = case
        cells = [flat[i * m:(i + 1) * m] for i in range(n)]
        if not any(flat):
            return
        empties = [k for k, v in enumerate(flat) if not v]
        zero_sets = [()] + [(k,) for k in empties[:2]] + ([tuple(empties)] if len(empties) > 1 else [])
        for zeros in zero_sets:
            x = build(cells, n, m, zeros)
            rec.state((n, m, tuple(flat), zeros))
            for k, (p, a, b) in enumerate(params):
                pys = [None]
                if gen.mix(k) % 4 == 0:     # steps through all betas, alphas and thresholds
                    pys.append([(j + 1) / 8 for j in range(m)])
                for py in pys:
                    compare(pmi, 'pmi', x, cells, n, m, py, p, a, b, rec)
                    if gen.mix(k + 1) % 5 == 0 or deep:
                        compare(pmi_memory_friendly, 'pmi_memory_friendly', x, cells, n, m, py, p, a, b, rec)
        rec.trace()
        rec.outcome(len(empties))
        rec.sample(flat)

    roots = []
    for n, m in shapes:
        vals = (0, 1, 3) if n * m > 4 else (0, 1, 2, 5)
        for k in range(n * m + 1):
            pass
        for t in itertools.product(vals, repeat=min(2, n * m)):
            roots.append([n, m, list(t), list(vals)])
    if deep:
        roots += [[3, 3, list(t), [0, 1, 3]] for t in itertools.product((0, 1, 3), repeat=4)]

    def expand(root):
        n, m, head, vals = root
        for rest in itertools.product(vals, repeat=n * m - len(head)):
            yield [n, m, head + list(rest)]

    def run_large(case, rec):
        n = case
        for m in (1, n, n + 3):
            cells = [[(i * j + 3 * i + j) % 5 * ((i + j) % 3 > 0) for j in range(m)] for i in range(n)]
            if not any(map(sum, cells)):
                continue
            x = build(cells, n, m, [i * m for i in range(n) if not cells[i][0]])
            given = [(j % 3 + 1) / 8 for j in range(m)]
            for p, a, b, py in ((0, 0.0, 1, None), (-1, 0.25, 0.5, None), (-1, 0.25, 0.5, given), (-20, 0.0, 0.75, given), (0.5, 0.25, 1, given)):
                compare(pmi, 'pmi', x, cells, n, m, py, p, a, b, rec)
                compare(pmi_memory_friendly, 'pmi_memory_friendly', x, cells, n, m, py, p, a, b, rec)
            rec.state((n, m))
        rec.trace()
        rec.outcome('ok')

    def run_scale(case, rec):
        # many cells, extreme values
        n, m, kind = case
        menu = [0, 1, 2, 3, 10, 0] if kind == 'small' else [0, 1, 10 ** 9, 3, 10 ** 10, 70000]
        cells = [[menu[gen.mix(i * 131 + j) % 6] for j in range(m)] for i in range(n)]
        if kind == 'cross':
            cells = [[10 ** 10 if (i == 0) != (j == 0) else 1 if i == j else 0 for j in range(m)] for i in range(n)]
        x = build(cells, n, m, [])
        given = [(gen.mix(j) % 7 + 1) / (8 * m) for j in range(m)]
        for p, a, b, py in ((0, 0.0, 1, None), (-100, 0.0, 1, None), (-100, 1e-6, 0.75, given), (-20, 0.0, 0.5, None), (3, 0.001, 1, given), (-1, 0.0, 1, None)):
            compare(pmi, 'pmi', x, cells, n, m, py, p, a, b, rec)
            compare(pmi_memory_friendly, 'pmi_memory_friendly', x, cells, n, m, py, p, a, b, rec)
            rec.state((n, m, kind, p, a, b))
        rec.trace()
        rec.outcome(kind)

    return [
        Harness('scale', run_scale, [[n, m, k] for n, m in ((2, 2), (6, 5), (300, 40), (40, 300), (150, 150), (1, 12000), (12000, 1)) for k in ('small', 'wide', 'cross')], chunk=1, about='matrices of up to 22500 cells and extreme values, low thresholds', bound='22500 cells'),
        Harness('matrices', run, roots, expand=expand, chunk=2, about='all small matrices x stored zeros x parameters', bound='3x3, cells 0/1/3' if deep else '2x3 and 3x2, cells 0/1/3'),
        Harness('large', run_large, list(range(2, 40 if deep else 20)), about='patterned larger matrices', bound='%d rows' % (40 if deep else 20)),
    ]
