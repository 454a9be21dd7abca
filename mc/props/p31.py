"""P31: utilities."""
import itertools
import math
import os
import shutil
import tempfile

from mc import gen
from mc.core import Harness

PROP = dict(
    id='P31',
    title='Utilities: nearest items, sorting files, corpus checks, adverbs from stems',
    statement=(
        'most_similar(query, vectors, ...) returns the topk items (all if topk is negative, fewer if there are no more) other than the query with the highest cosine similarity, best first, each with its similarity, for dense and sparse vectors alike, and nothing for an unknown query; the vectors stay as they are. '
        'sort_by_alphabet rewrites a file as its stripped nonblank lines in ascending order, duplicates kept. '
        'check_corpus raises ValueError for anything that cannot be iterated or has no positive length, and is True otherwise; it consumes nothing. '
        'check_dirs makes the missing folders of a file path, at any depth, and leaves existing ones and the file alone. '
        'load_default_adverbs gives a fresh set of the first words of the lines of its file; stem_to_adverb gives, for exactly the stems that end with 하, the stem without 하 plus each suffix character (히 by default).'),
    quantifier=dict(over=['inputs'], text='all vectors, files, paths, corpora and stem sets'),
    why_tests_cant='No test calls these functions.',
    anchors=dict(files=['soynlp/utils/utils.py', 'soynlp/pos/_adverb.py'],
                 mechanism=[dict(name='most_similar / sort_by_alphabet / check_corpus / check_dirs', where='soynlp/utils/utils.py'), dict(name='stem_to_adverb', where='soynlp/pos/_adverb.py')],
                 state=[], observe_at=['most_similar', 'sort_by_alphabet', 'check_corpus', 'check_dirs', 'load_default_adverbs', 'stem_to_adverb'], hook_needed=None))

CHECK = dict(
    technique='bounded-exhaustive enumeration of vectors, file contents, paths and corpus-like objects on the real functions against reference functions',
    level_note='All small integer matrices, all line sequences up to 5 lines over a menu with blanks and duplicates, all path shapes up to depth 3 with every prefix of existing folders.',
    assumptions=['order among equally similar items is unspecified', 'topk=0 is unspecified', 'rows of zeros are unspecified'])


def harnesses(tier):
    import numpy as np
    import scipy.sparse as sp
    from soynlp.pos import load_default_adverbs, stem_to_adverb
    from soynlp.utils import DoublespaceLineCorpus, check_corpus, check_dirs, most_similar, sort_by_alphabet
    deep = tier == 'thorough'
    EPS = 1e-9

    def cosine(a, b):
        return sum(x * y for x, y in zip(a, b)) / math.sqrt(sum(x * x for x in a) * sum(y * y for y in b))

    def similar(rows, rec, kinds, ks):
        items = ['w%d' % i for i in range(len(rows))]
        index = {w: i for i, w in enumerate(items)}
        for kind in kinds:
            X = np.array(rows, dtype=float)
            X = X if kind == 'dense' else sp.csr_matrix(X)
            for q in range(len(rows)):
                sims = {i: cosine(rows[q], rows[i]) for i in range(len(rows)) if i != q}
                for k in ks:
                    got = most_similar(items[q], X, index, items, topk=k)
                    rec.step()
                    n = len(sims) if k < 0 else min(k, len(sims))
                    what = 'most_similar(row %d of %r, %s, topk=%d)' % (q, rows, kind, k)
                    rec.check(len(got) == n and len({w for w, _ in got}) == n, '%s: %r instead of %d items', what, got, n)
                    best = sorted(sims.values(), reverse=True)
                    for (w, s), b in zip(got, best):
                        i = index.get(w)
                        rec.check(i in sims and abs(s - sims[i]) < EPS, '%s: %r has similarity %r, reference %r', what, w, s, sims.get(i))
                        rec.check(abs(s - b) < EPS, '%s: similarities %r, best are %r', what, [s for _, s in got], best[:n])
                if q == 0:
                    rec.equal([list(x) for x in (X if kind == 'dense' else X.toarray())], [list(map(float, r)) for r in rows], 'vectors after queries')
            rec.equal(most_similar('unknown', X, index, items, topk=2), [], 'unknown query')

    def run_similar(case, rec):
        vals = (-1, 0, 2) if not deep else (-1, 0, 1, 3)
        rows2 = [v for v in itertools.product(vals, repeat=2) if any(v)]
        for rest in itertools.product(rows2, repeat=4 - len(case)):
            rows = [list(v) for v in case] + [list(v) for v in rest]
            rec.state(str(rows))
            similar(rows, rec, ('dense', 'sparse') if gen.mix(sum((v + 2) * 5 ** i for i, v in enumerate(sum(rows, [])))) % 4 == 0 else ('dense',), (-1, 1, 2, 3, 10))
        rec.trace()

    def run_many(case, rec):
        n, d = case
        rows = [[(gen.mix(i * 31 + j * 7) % 7) - (j > 1) * 3 for j in range(d)] for i in range(n)]
        rows = [r if any(r) else [1] + r[1:] for r in rows]
        rec.state(tuple(case))
        similar(rows, rec, ('dense', 'sparse'), (-1, 1, 10, n - 2, n - 1, n, n + 1) if n > 3 else (-1, 1, 5))
        items = ['w%d' % i for i in range(n)]
        X, index = np.array(rows, dtype=float), {w: i for i, w in enumerate(items)}
        rec.equal(len(most_similar('w0', X, index, items)), min(10, n - 1), 'number of items by default')
        rec.own(lambda: most_similar('w0', X, index, items), 'most_similar')
        rec.trace()

    def run_big(case, rec):
        n, d = case
        rows = [[(gen.mix(i * 131 + j * 7) % 19) - (j > 1) * 9 for j in range(d)] for i in range(n)]
        rows = [r if any(r) else [1] + r[1:] for r in rows]
        rows = [[x * 1e6 for x in r] if i % 50 == 7 else r for i, r in enumerate(rows)]
        items = ['w%d' % i for i in range(n)]
        index = {w: i for i, w in enumerate(items)}
        for kind in ('dense', 'sparse'):
            X = np.array(rows, dtype=float)
            X = X if kind == 'dense' else sp.csr_matrix(X)
            for q in (0, 7, n // 2, n - 1):
                sims = [cosine(rows[q], rows[i]) for i in range(n)]
                best = sorted((s for i, s in enumerate(sims) if i != q), reverse=True)
                for k in (-1, 1, 10, 300, n - 2, n - 1, n + 5):
                    rec.state((n, d, kind, q, k))
                    got = most_similar(items[q], X, index, items, topk=k)
                    what = 'most_similar(row %d of %d, %s, topk=%d)' % (q, n, kind, k)
                    m = n - 1 if k < 0 else min(k, n - 1)
                    rec.step(m)
                    rec.check(len(got) == m and len({w for w, _ in got}) == m and items[q] not in {w for w, _ in got}, '%s: %d items instead of %d', what, len(got), m)
                    for (w, s), b in zip(got, best):
                        rec.check(abs(s - sims[index[w]]) < EPS and abs(s - b) < EPS, '%s: %r has similarity %r, reference %r, expected %r here', what, w, s, sims[index[w]], b)
        rec.trace()

    def run_bigsort(case, rec):
        n, kind = case
        words = ['', 'a', 'A', '가', '\u200b', '🙂', 'é', 'e\u0301', '10', '9', '-1', '\ufeffz', 'a b', 'a  b']
        lines = [words[gen.mix(i) % len(words)] + (str(gen.mix(i * 3) % n) if kind != 'same' else '') + ('x' * 3000 if i % 97 == 3 else '') for i in range(n)]
        with tempfile.TemporaryDirectory() as d:
            path = os.path.join(d, 'f')
            with open(path, 'w', encoding='utf8', newline='') as f:
                f.write('\n'.join(' ' * (i % 3) + x for i, x in enumerate(lines)) + ('\n' if kind != 'open' else ''))
            want = sorted(x.strip() for x in lines if x.strip())
            for _ in (0, 1):
                sort_by_alphabet(path)
                with open(path, encoding='utf8', newline='') as f:
                    got = f.read()
                rec.step(n)
                rec.check(got == ''.join(x + '\n' for x in want), 'sorted file of %d lines (%s): %d lines instead of %d', n, kind, got.count('\n'), len(want))
            rec.equal(os.listdir(d), ['f'], 'files after sorting')
        rec.state((n, kind))
        rec.trace()

    LINES = ['나\n', '가 나\n', ' 가\n', '\n', '  \t\n', 'b\n', 'a b \n', 'A\n', '가나\r\n', '10\n', '9\n']

    def run_sort(case, rec):
        d = tempfile.mkdtemp()
        try:
            for tail in ('', '가', ' '):
                text = ''.join(LINES[i] for i in case) + tail
                path = os.path.join(d, 'f')
                with open(path, 'w', encoding='utf8', newline='') as f:
                    f.write(text)
                want = sorted(x.strip() for x in text.replace('\r\n', '\n').split('\n') if x.strip())
                for again in (0, 1):
                    sort_by_alphabet(path)
                    with open(path, encoding='utf8', newline='') as f:
                        rec.equal(f.read(), ''.join(x + '\n' for x in want), 'sorted file of %r (call %d)' % (text, again + 1))
                rec.state(text)
                rec.equal(os.listdir(d), ['f'], 'files after sorting')
        finally:
            shutil.rmtree(d)
        rec.trace()

    class Lengthless:
        def __iter__(self):
            raise AssertionError('iterated')

    class Uniterable:
        def __len__(self):
            return 3

    class Both(Lengthless):
        def __init__(self, n):
            self.n = n

        def __len__(self):
            return self.n

    def run_corpus(case, rec):
        objs = [([], 0), ([''], 1), (['a', 'b'], 1), ((), 0), (('a',), 1), ({}, 0), ({'a': 1}, 1), (set(), 0), ({'a'}, 1), ('', 0), ('a', 1),
                (iter(['a']), 0), ((x for x in 'ab'), 0), (3, 0), (None, 0), (1.5, 0), (Lengthless(), 0), (Uniterable(), 0), (Both(0), 0), (Both(1), 1), (Both(10 ** 6), 1),
                (range(0), 0), (range(5), 1), (len, 0), (map(str, [1]), 0), (b'', 0), (b'a', 1)]
        for obj, ok in objs:
            rec.state(repr(obj)[:20])
            try:
                got = check_corpus(obj)
            except ValueError:
                got = 'ValueError'
            rec.equal(got, True if ok else 'ValueError', 'check_corpus(%r)' % (obj,))
        # corpora in files, of documents and of sentences
        base = tempfile.mkdtemp()
        try:
            for text in ('', 'a', 'a  b\nc\n', '\n', '\n\n', 'head\n', 'head\na\n', '  \n', '\n\na'):
                path = os.path.join(base, 'corpus')
                with open(path, 'w', encoding='utf8') as f:
                    f.write(text)
                for by_sent in (False, True):
                    for skip in (0, 1):
                        corpus = DoublespaceLineCorpus(path, iter_sent=by_sent, skip_header=skip)
                        n = len(list(corpus))
                        rec.state((text, by_sent, skip))
                        try:
                            got = check_corpus(corpus)
                        except ValueError:
                            got = 'ValueError'
                        rec.equal(got, True if len(corpus) > 0 else 'ValueError', 'check_corpus of a DoublespaceLineCorpus(iter_sent=%r, skip_header=%d) of length %d over %r' % (by_sent, skip, len(corpus), text))
                        rec.equal(len(list(corpus)), n, 'items of the corpus afterwards')
        finally:
            shutil.rmtree(base)
        it = iter(['a', 'b'])
        try:
            check_corpus(it)
        except ValueError:
            pass
        rec.equal(list(it), ['a', 'b'], 'rest of an iterator after check_corpus')
        rec.trace()

    def run_dirs(case, rec):
        depth, exist, how, name = case
        base = tempfile.mkdtemp()
        cwd = os.getcwd()
        try:
            parts = ['가 나', 'b.c', 'd'][:depth]
            existing = os.path.join(base, *parts[:exist])
            os.makedirs(existing, exist_ok=True)
            with open(os.path.join(existing, 'keep'), 'w') as f:
                f.write('x')
            if how == 'relative':
                os.chdir(base)
            path = os.path.join(*([base] if how == 'absolute' else []) + parts + [name])
            for again in (0, 1):
                check_dirs(path)
                dirs, files = set(), set()
                for r, ds, fs in os.walk(base):
                    dirs |= {os.path.relpath(os.path.join(r, x), base) for x in ds}
                    files |= {os.path.relpath(os.path.join(r, x), base) for x in fs}
                rec.state(tuple(case))
                rec.equal(dirs, {os.path.join(*parts[:i]) for i in range(1, depth + 1)}, 'folders after check_dirs(%r) with %d of %d existing' % (path, exist, depth))
                rec.equal(files, {os.path.relpath(os.path.join(existing, 'keep'), base)}, 'files after check_dirs(%r)' % path)
        finally:
            os.chdir(cwd)
            shutil.rmtree(base)
        rec.trace()

    STEMS = ['조용하', '하', '하하', '가', '하가', '가하', '성실히', '곤란하다', '하얗', 'a하']

    def run_adverb(case, rec):
        stems = [STEMS[i] for i in case]
        for kind in (list, set, tuple, dict.fromkeys, iter):
            for suffix in (None, '히', '', '히이', '게', ['게', '히']):
                rec.state((tuple(case), kind.__name__ if hasattr(kind, '__name__') else 'x', str(suffix)))
                got = stem_to_adverb(kind(stems)) if suffix is None else stem_to_adverb(kind(stems), suffix)
                want = {s[:-1] + x for s in stems if s.endswith('하') for x in (suffix if suffix is not None else '히')}
                rec.equal(got, want, 'adverbs of %r with suffix %r' % (stems, suffix))
        if len(stems) == 1:
            rec.equal(stem_to_adverb(stems[0]), {s[:-1] + '히' for s in stems if s.endswith('하')}, 'adverbs of the string %r' % stems[0])
        rec.trace()

    def run_adverb_file(case, rec):
        d = tempfile.mkdtemp()
        try:
            lines = ['가장 12', '  나중에', '더', '더 1', '매우\t3 4', '꼭 ']
            use = [lines[i] for i in case]
            with open(d + '/f', 'w', encoding='utf8') as f:
                f.write('\n'.join(use))
            rec.state(tuple(case))
            rec.own(lambda: load_default_adverbs(d + '/f'), 'adverbs of %r' % use)
            rec.equal(load_default_adverbs(d + '/f'), {x.split()[0] for x in use}, 'adverbs of %r' % use)
        finally:
            shutil.rmtree(d)
        from mc import core
        with open(os.path.join(core.REPO, 'soynlp/postagger/dictionary/default/Adverb/adverb.txt'), encoding='utf8') as f:
            want = {x.split()[0] for x in f.read().splitlines()}
        rec.own(load_default_adverbs, 'default adverbs')
        rec.equal(load_default_adverbs(), want, 'default adverbs')
        rec.trace()

    vals = (-1, 0, 2) if not deep else (-1, 0, 1, 3)
    rows2 = [list(v) for v in itertools.product(vals, repeat=2) if any(v)]
    return [
        Harness('similar', run_similar, [[a, b] for a in rows2 for b in rows2], chunk=1, about='4 vectors, every query and topk', bound='entries {-1,0,2} (thorough {-1,0,1,3}), dense and sparse'),
        Harness('many', run_many, [[n, d] for n in (1, 2, 3, 10, 11, 12, 13, 40) + ((200,) if deep else ()) for d in (1, 3, 5)], chunk=1, about='many vectors', bound='up to 40 (thorough 200) vectors'),
        Harness('large', run_big, [[n, d] for n in (300, 1100, 4200) for d in (2, 7)], chunk=1, about='thousands of vectors, some very long', bound='4200 vectors'),
        Harness('large files', run_bigsort, [[n, k] for n in (300, 5000, 70000) for k in ('same', 'numbered', 'open')], chunk=1, about='files of thousands of lines rewritten in order', bound='70000 lines'),
        Harness('sort', run_sort, [list(c) for c in gen.tuples_upto(range(len(LINES)), 3 if not deep else 4)], chunk=40, about='files rewritten in order', bound='up to 3 (thorough 4) lines of 11 kinds, 3 unfinished last lines'),
        Harness('corpus', run_corpus, [[0]], about='corpus-like objects', bound='27 kinds'),
        Harness('dirs', run_dirs, [[d, e, h, n] for d in range(4) for e in range(d + 1) for h in ('absolute', 'relative') for n in ('f', 'f.txt', '')], chunk=4, about='path shapes x existing folders', bound='depth 3'),
        Harness('adverb', run_adverb, [list(c) for c in gen.tuples_upto(range(len(STEMS)), 2, 1)], chunk=20, about='stem collections x suffixes', bound='up to 2 stems'),
        Harness('adverb file', run_adverb_file, [list(c) for c in gen.tuples_upto(range(6), 2)], chunk=8, about='adverb files', bound='up to 2 lines'),
    ]
