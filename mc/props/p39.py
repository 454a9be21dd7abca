"""P39: truncated SVD helper."""
import itertools

from mc import gen
from mc.core import Harness

PROP = dict(
    id='P39',
    title='The truncated SVD helper returns the leading singular triplets, reproducibly',
    statement=(
        'For every real matrix, sparse or dense, whose smaller side (or rank) is at most ten more than the requested number of components, the SVD helper returns unit-length, pairwise orthogonal left and right singular vectors with their singular values: '
        'the values are the largest ones of the matrix in decreasing order, and the matrix maps each right vector to the left vector times the value and back. '
        'For other matrices the result approaches that with the number of iterations, and agrees with it after many. It takes as many components as asked for (or as the matrix has rows, if fewer), raises ValueError if they are not fewer than the columns, gives the same result for the same integer seed, accepts a random state object or none, and leaves the matrix alone.'),
    quantifier=dict(over=['inputs', 'configurations'], text='all matrices within that size or rank, numbers of components and seeds'),
    why_tests_cant='No test calls it; repeated singular values, rank deficiency and wide or tall shapes are where a decomposition goes wrong.',
    anchors=dict(files=['soynlp/utils/math.py'], mechanism=[dict(name='svd', where='soynlp/utils/math.py')], observe_at=['svd'], hook_needed=None))

CHECK = dict(
    technique='bounded-exhaustive enumeration of small integer matrices x component numbers x seeds on the real helper against a full decomposition',
    level_note='Every 3x3 matrix over three values, every 4x3 and 3x4 matrix over two values, and structured low-rank matrices of up to 40 rows; beyond the oversampling of the randomized algorithm only many iterations on known spectra are judged.',
    assumptions=['the smaller side or the rank of the matrix is at most the number of components plus ten, or the number of iterations is large for the decay of its singular values'])


def harnesses(tier):
    import numpy as np
    from scipy.sparse import csr_matrix
    from soynlp.utils.math import svd
    deep = tier == 'thorough'

    def judge(X, k, got, what, rec):
        U, S, VT = (np.asarray(x) for x in got)
        m, n = X.shape
        r = min(k, m)
        rec.equal((U.shape, S.shape, VT.shape), ((m, r), (r,), (r, n)), what + ': shapes')
        exact = np.linalg.svd(X, compute_uv=False)[:r]
        tol = 1e-7 * (1 + float(exact[0]))
        rec.check(bool(np.all(np.abs(S - exact) < tol)), '%s: singular values %r, not %r' % (what, S.tolist(), exact.tolist()))
        rec.check(all(S[i] >= S[i + 1] for i in range(r - 1)), '%s: values %r do not decrease' % (what, S.tolist()))
        live = [i for i in range(r) if exact[i] > 1e-6]
        for A, name in ((U.T, 'left'), (VT, 'right')):
            G = A[live] @ A[live].T
            rec.check(bool(np.all(np.abs(G - np.eye(len(live))) < 1e-7)), '%s: %s vectors are not orthonormal' % (what, name))
        rec.check(bool(np.all(np.abs(X @ VT.T - U * S) < tol)), '%s: the matrix does not map right vectors to left ones' % what)
        rec.check(bool(np.all(np.abs(X.T @ U - VT.T * S) < tol)), '%s: the transpose does not map left vectors to right ones' % what)
        rec.step(6)
        rec.outcome((r, len(live)))

    def compare(X, k, seed, sparse, rec):
        given = csr_matrix(X) if sparse else X.copy()
        what = 'svd of %r with %d components, %s, seed %r' % (X.tolist() if X.size < 20 else X.shape, k, 'sparse' if sparse else 'dense', seed)
        state = np.random.RandomState(seed) if seed == 7 else seed
        first = svd(given, k, random_state=state)
        judge(X, k, first, what, rec)
        if isinstance(state, int):
            again = svd(given, n_components=k, random_state=state)
            rec.check(all(np.array_equal(a, b) for a, b in zip(first, again)), what + ': another result for the same seed')
        rec.check(np.array_equal(given.toarray() if sparse else given, X), what + ': the matrix was changed')

    def too_many(X, k, what, rec):
        try:
            svd(X, k)
        except ValueError:
            rec.outcome('ValueError')
        else:
            rec.fail('%s: %d components of %d columns accepted' % (what, k, X.shape[1]))

    def run_small(case, rec):
        m, n, values, head = case
        for tail in itertools.product(values, repeat=m * n - len(head)):
            cells = tuple(head) + tail
            X = np.array(cells, dtype=float).reshape(m, n)
            h = sum(int(c * 7 + 3) * 31 ** i for i, c in enumerate(cells))
            for k in range(1, n):
                rec.state((m, n, cells, k))
                compare(X, k, [0, 1, 7, None, 12][(h + k) % 5], (h // 5 + k) % 2, rec)
            too_many(X, n + h % 3, repr(cells), rec)
        rec.trace()
        rec.sample(case)

    def run_large(case, rec):
        m, n, rank, which, k = case
        rng = [[((i * 7 + j * 3 + which) % 11 - 5) for j in range(max(m, n))] for i in range(rank)]
        L = np.array([[rng[r][i] + (i == r) * 4 for r in range(rank)] for i in range(m)], dtype=float)
        R = np.array([[(rng[r][(j * 5 + r) % n] if which else 0) + (j == r) * (r + 1) for j in range(n)] for r in range(rank)], dtype=float)
        X = L @ R
        for seed in (0, 7, None):
            for sparse in (0, 1):
                rec.state((tuple(case), seed, sparse))
                compare(X, k, seed, sparse, rec)
        too_many(X, n, repr(case), rec)
        rec.trace()

    def run_scale(case, rec):
        m, n, rank, big, k = case
        i, j = np.arange(m)[:, None], np.arange(n)[None, :]
        X = sum(np.round(np.cos(i * (r + 1) * 0.7) * 8) * np.round(np.sin(j * (r + 2) * 0.3 + 1) * 8) * (r + 1) for r in range(rank)).astype(float) * big
        for seed in (0, 7):
            for sparse in (0, 1):
                rec.state((tuple(case), seed, sparse))
                given = csr_matrix(X) if sparse else X.copy()
                U, S, VT = svd(given, k, random_state=np.random.RandomState(seed) if seed == 7 else seed)
                judge(X / big, k, (U, np.asarray(S) / big, VT), 'svd of %r with %d components, %s, seed %r' % (case, k, 'sparse' if sparse else 'dense', seed), rec)
                rec.check(np.array_equal(given.toarray() if sparse else given, X), 'svd of %r: the matrix was changed', case)
        rec.trace()

    def run_iterations(case, rec):
        n, decay, k, iters = case
        i = np.arange(n)
        Q = np.sqrt(2 / n) * np.cos(np.pi * (2 * i[:, None] + 1) * i[None, :] / (2 * n))      # an orthogonal cosine basis
        Q[:, 0] /= np.sqrt(2)
        P = Q[:, (i * 7 + 3) % n] if np.gcd(7, n) == 1 else Q[:, ::-1]
        s = decay ** i
        X = (Q * s) @ P.T
        for seed in (0, 3, 7, None):
            for sparse in (0, 1):
                rec.state((tuple(case), seed, sparse))
                given = csr_matrix(X) if sparse else X.copy()
                U, S, VT = (np.asarray(x) for x in svd(given, k, n_iter=iters, random_state=np.random.RandomState(seed) if seed == 7 else seed))
                what = 'svd of a %dx%d matrix with values %r^i, %d components, %d iterations, seed %r' % (n, n, decay, k, iters, seed)
                rec.check(bool(np.all(np.abs(S - s[:k]) < 1e-6)), '%s: values %r instead of %r', what, S.tolist(), s[:k].tolist())
                rec.check(bool(np.all(np.abs(U.T @ U - np.eye(k)) < 1e-8)) and bool(np.all(np.abs(VT @ VT.T - np.eye(k)) < 1e-8)), '%s: vectors are not orthonormal', what)
                rec.check(bool(np.all(np.abs(X @ VT.T - U * S) < 1e-4)) and bool(np.all(np.abs(X.T @ U - VT.T * S) < 1e-4)), '%s: vectors are not mapped onto each other', what)
                rec.step(3)
        rec.trace()
        rec.outcome((n, k))

    small = [[3, 3, [0, 1, 2], list(t)] for t in itertools.product([0, 1, 2], repeat=5)][::1 if deep else 3]
    small += [[4, 3, [0, 1], list(t)] for t in itertools.product([0, 1], repeat=6)][::1 if deep else 3]
    small += [[3, 4, [0, 1], list(t)] for t in itertools.product([0, 1], repeat=6)][::1 if deep else 3]
    small += [[1, 3, [-2, 0, 1, 3], []], [2, 2, [-1, 0, 1, 2.5], []], [2, 3, [-1, 0, 2], []], [5, 2, [0, 1], []]]
    large = [[m, n, r, w, k] for m, n in ((12, 15), (40, 9), (9, 40), (30, 30), (1, 25)) for r in (1, 2, 5, 8) for w in (0, 1, 2, 3) for k in (1, 2, 3, 7) if r <= min(m, n) and k < n]
    return [
        Harness('scale', run_scale, [[m, n, r, b, k] for m, n in ((300, 200), (200, 300), (1100, 12), (12, 1100), (70, 70)) for r in (1, 4, 10) for b in (1, 1e6, 1e-4) for k in (1, 4, 11)], chunk=4, about='larger matrices of low rank and of very large or small values', bound='300x200, 1100x12'),
        Harness('iterations', run_iterations, [[n, d, k, it] for n, d, it in ((40, 0.9, 12), (61, 0.9, 30), (61, 0.95, 30), (90, 0.95, 60), (150, 0.97, 40)) for k in (1, 3, 8, 12)], chunk=1, about='full-rank matrices with known singular values and many iterations', bound='150x150, 60 iterations'),
        Harness('small', run_small, small, chunk=2, about='all small integer matrices x numbers of components, seeds and storage in rotation', bound='3x3 over {0,1,2}, 4x3 and 3x4 over {0,1}%s' % ('' if deep else ', every third block')),
        Harness('low_rank', run_large, large, chunk=8, about='structured low-rank matrices of several shapes', bound='up to 40x40, rank <= 8'),
    ]
