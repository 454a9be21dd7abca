"""P17: bag-of-words vectorizer."""
import itertools
import os
import tempfile
from collections import Counter

from mc import gen
from mc.core import Harness

PROP = dict(
    id='P17',
    title='The vectorizer selects exactly the specified vocabulary and counts exactly',
    statement=(
        'After fitting, the vocabulary of BaseVectorizer is exactly the set of tokens, other than stopwords, whose number of occurrences lies in [min_tf, max_tf] and whose number of documents lies between the document count times min_df and times max_df (each rounded down), indexed 0..n-1 by decreasing number of occurrences, with the index-to-word list as its exact inverse and nothing left from an earlier fit. '
        'Row d of the matrix holds, for each vocabulary token, the number of its occurrences in document d and nothing else, its shape is documents x vocabulary even when rows or the vocabulary are empty; the bag-of-words and list encodings of a document agree with that row and decode back to the document restricted to the vocabulary, ignoring indices outside it; and the Matrix Market file describes the same matrix with a correct header. '
        'Saving and loading a vocabulary restores words and indices exactly, whatever the vectorizer was used for before or after.'),
    quantifier=dict(over=['inputs', 'configurations', 'histories'], text='all nonempty document collections, frequency limits, stopword sets and call histories'),
    why_tests_cant='No test calls the vectorizer at all; limits interact per token, so every small collection with every limit combination has to be tried.',
    anchors=dict(files=['soynlp/vectorizer/_vectorizer.py'],
                 mechanism=[dict(name='BaseVectorizer.fit / transform / to_file / encode_* / decode_*', where='soynlp/vectorizer/_vectorizer.py')],
                 state=[dict(name='vocabulary', meaning='word to index and its inverse', where='soynlp/vectorizer/_vectorizer.py')],
                 observe_at=['fit_transform', 'vocabulary_', 'encode_a_doc_to_bow', 'encode_a_doc_to_list', 'to_file', 'save', 'load'], hook_needed=None))

CHECK = dict(
    technique='exhaustive enumeration of document collections x limits on the real vectorizer against exact counts; explicit-state search over all call sequences on one reused vectorizer',
    level_note='All ordered collections of up to 3 (thorough 4) of 9 documents (empty, repeated, mixed-case and Korean tokens) under every combination of 3 x 3 x 3 x 3 limits and 2 stopword sets, and all call sequences of depth 3 (4) over a 10-call menu.',
    assumptions=['tokens contain no white space', 'the order of equally frequent words is unspecified', 'the effect of lowercase is unspecified (it is not implemented)'])

DOCS = ['', 'a', 'a a b', 'b c', 'c c c a', 'b a b', '가 나 a', 'd', 'A a']


def reference(docs, min_tf, max_tf, min_df, max_df, stop, tokenizer=str.split):
    tf, df = Counter(), Counter()
    for d in docs:
        c = Counter(tokenizer(d))
        tf.update(c)
        df.update(c.keys())
    n = len(docs)
    return {t: f for t, f in tf.items() if min_tf <= f <= max_tf and int(n * min_df) <= df[t] <= int(n * max_df) and t not in stop}


def compare_vocab(v, tfs, what, rec):
    rec.equal(set(v.vocabulary_), set(tfs), what + ': vocabulary')
    rec.equal(sorted(v.vocabulary_.values()), list(range(len(tfs))), what + ': indices')
    rec.equal([v.vocabulary_[w] for w in v.idx2vocab], list(range(len(tfs))), what + ': index to word')
    rec.equal(list(v.vocabs()), list(v.idx2vocab), what + ': vocabs()')
    rec.check(len(v) == len(tfs) == v.n_vocabs, '%s: length %r' % (what, len(v)))


def compare_docs(v, docs, what, rec, tokenizer=str.split):
    x = v.transform(docs)
    rec.equal(tuple(x.shape), (len(docs), len(v.idx2vocab)), what + ': shape of the matrix of %r' % (docs,))
    dense = x.toarray()
    for i, d in enumerate(docs):
        toks = [t for t in tokenizer(d) if t in v.vocabulary_]
        c = Counter(toks)
        rec.equal([int(a) if a == int(a) else a for a in dense[i]], [c.get(w, 0) for w in v.idx2vocab], what + ': row of %r' % d)
        bow = v.encode_a_doc_to_bow(d)
        rec.equal(dict(bow), {v.vocabulary_[t]: n for t, n in c.items()}, what + ': bag of words of %r' % d)
        rec.equal(dict(v.decode_from_bow(bow)), dict(c), what + ': decoded bag of words of %r' % d)
        lst = list(v.encode_a_doc_to_list(d))
        rec.equal(lst, [v.vocabulary_[t] for t in toks], what + ': encoded list of %r' % d)
        rec.equal(list(v.decode_from_list(lst)), toks, what + ': decoded list of %r' % d)
        n = len(v.idx2vocab)
        rec.equal(list(v.decode_from_list([n, -1] + lst + [n + 7])), toks, what + ': decoding foreign indices')
        rec.equal(dict(v.decode_from_bow(dict(bow, **{}) | {n: 1, -1: 2})), dict(c), what + ': decoding foreign indices')
    return dense


def compare_file(v, path, docs, what, rec, tokenizer=str.split):
    with open(path, encoding='utf-8') as f:
        lines = [l.rstrip('\n') for l in f]
    rec.check(lines[0].startswith('%%MatrixMarket matrix coordinate integer general'), '%s: header %r' % (what, lines[0]))
    body = [l for l in lines if not l.startswith('%')]
    head = [int(t) for t in body[0].split()]
    cells = [tuple(int(t) for t in l.split()) for l in body[1:]]
    want = {}
    for i, d in enumerate(docs):
        for t, c in Counter(tokenizer(d)).items():
            if t in v.vocabulary_:
                want[i + 1, v.vocabulary_[t] + 1] = c
    rec.equal(head, [len(docs), len(v.idx2vocab), len(want)], what + ': size line')
    rec.equal(sorted(cells), sorted((i, j, c) for (i, j), c in want.items()), what + ': cells')


def harnesses(tier):
    from soynlp.vectorizer import BaseVectorizer
    deep = tier == 'thorough'
    n = 4 if deep else 3
    params = list(itertools.product((0, 2, 3), (1, 3, 99999999), (0, 0.5, 0.75), (0.25, 0.5, 1.0), (None, ['a', 'zz'])))

    def tfs_sorted(v, tfs, what, rec):
        order = [tfs[w] for w in v.idx2vocab]
        rec.check(order == sorted(order, reverse=True), '%s: words are not in order of frequency: %r' % (what, list(zip(v.idx2vocab, order))))

    def run(case, rec):
        docs = [DOCS[i] for i in case]
        vs = {}
        for k, (a, b, c, d, stop) in enumerate(params):
            kw = dict(min_tf=a, max_tf=b, min_df=c, max_df=d, stopwords=stop, verbose=False)
            if kw == dict(min_tf=0, max_tf=99999999, min_df=0, max_df=1.0, stopwords=None, verbose=False):
                kw = dict(verbose=False)
            v = BaseVectorizer(**kw)
            what = 'vectorizer (%r) fitted to %r' % ((a, b, c, d, stop), docs)
            tfs = reference(docs, a, b, c, d, stop or ())
            if gen.mix(k) % 7 == 0:
                x = v.fit_transform(docs).toarray()
            else:
                x = None
                rec.check(v.fit(docs) is v, what + ': fit returns another object')
            compare_vocab(v, tfs, what, rec)
            tfs_sorted(v, tfs, what, rec)
            rec.state((tuple(case), k))
            key = tuple(v.idx2vocab)
            if key not in vs or x is not None:
                vs[key] = v
                dense = compare_docs(v, docs, what, rec)
                if x is not None:
                    rec.check(x.shape == dense.shape and (x == dense).all(), what + ': fit_transform differs from transform')
        for v in vs.values():
            compare_docs(v, ['zz a zz', '나 나 c', ''], 'vectorizer with %r on new documents' % (v.idx2vocab,), rec)
        rec.trace()
        rec.outcome(len(vs))
        rec.sample(docs)

    corpora = [['a a b', 'b c'], ['d', 'd 가', '가 나'], ['', 'zz']]

    def chars(doc):
        return list(doc.replace(' ', ''))

    menu = [['fit', 0], ['fit', 1], ['fit', 2], ['save'], ['loadlast'], ['loadother'], ['file', 0], ['fitfile', 1], ['transform', 2], ['verbose']]

    def run_ops(case, rec):
        base, ops = case
        kw, tok = [(dict(verbose=False), str.split), (dict(verbose=False, min_tf=2, max_df=0.5), str.split), (dict(verbose=False, tokenizer=chars, stopwords={'a'}), chars)][base]
        v = BaseVectorizer(**kw)
        a, b, c, d, stop = kw.get('min_tf', 0), kw.get('max_tf', 99999999), kw.get('min_df', 0), kw.get('max_df', 1.0), kw.get('stopwords', ())
        words, saved = [], None

        def fitted(docs, what):
            tfs = reference(docs, a, b, c, d, stop, tok)
            compare_vocab(v, tfs, what, rec)
            tfs_sorted(v, tfs, what, rec)
            return list(v.idx2vocab)
        with tempfile.TemporaryDirectory() as tmp:
            saved_path = os.path.join(tmp, 'v')
            with open(os.path.join(tmp, 'other.vocab'), 'w', encoding='utf-8') as f:
                f.write('나\nq\na\n')
            for step, i in enumerate(ops):
                op = menu[i]
                what = 'vectorizer %d after %r' % (base, [menu[j] for j in ops[:step + 1]])
                if op[0] == 'fit':
                    v.fit(corpora[op[1]])
                    words = fitted(corpora[op[1]], what)
                elif op[0] == 'save':
                    v.save(saved_path + ('.vocab' if step % 2 else ''))
                    saved = list(words)
                    rec.check(sorted(os.listdir(tmp)) in (['other.vocab', 'v.vocab'], ['d', 'other.vocab', 'v.vocab']), '%s: files %r' % (what, os.listdir(tmp)))
                elif op[0] == 'loadlast':
                    if saved is not None:
                        v.load(saved_path + ('' if step % 2 else '.vocab'))
                        words = list(saved)
                elif op[0] == 'loadother':
                    v.load(os.path.join(tmp, 'other'))
                    words = ['나', 'q', 'a']
                elif op[0] == 'file':
                    p = os.path.join(tmp, 'd', 'e', 'x.mtx')
                    v.to_file(corpora[op[1]], p)
                    compare_file(v, p, corpora[op[1]], what, rec, tok)
                elif op[0] == 'fitfile':
                    p = os.path.join(tmp, 'd', 'y.mtx')
                    v.fit_to_file(corpora[op[1]], p)
                    words = fitted(corpora[op[1]], what)
                    compare_file(v, p, corpora[op[1]], what, rec, tok)
                elif op[0] == 'verbose':
                    v.verbose = not v.verbose
                rec.equal(list(v.idx2vocab), words, what + ': words')
                compare_vocab(v, dict.fromkeys(words, 1), what, rec)
                compare_docs(v, corpora[2] if op[0] == 'transform' else corpora[0] + ['나 q'], what, rec, tok)
                rec.state((base, tuple(words), tuple(saved or ())))
        rec.trace()
        rec.outcome(len(words))
        rec.sample([menu[j] for j in ops])

    depth = 4 if deep else 3

    def expand(root):
        for rest in itertools.product(range(len(menu)), repeat=depth - 1):
            yield [root[0], [root[1]] + list(rest)]

    def run_long(case, rec):
        k = case
        docs = [' '.join('w%d' % (i % m) for i in range(k)) for m in (1, 2, 3, 5)] * 3 + ['a' * 200] * (k % 4)
        for kw in (dict(), dict(min_tf=k), dict(min_df=0.5), dict(max_df=0.5), dict(max_tf=2 * k)):
            v = BaseVectorizer(verbose=bool(k % 2), **kw)
            v.fit(docs)
            what = 'vectorizer %r fitted to %d long documents of %d tokens' % (kw, len(docs), k)
            tfs = reference(docs, kw.get('min_tf', 0), kw.get('max_tf', 99999999), kw.get('min_df', 0), kw.get('max_df', 1.0), ())
            compare_vocab(v, tfs, what, rec)
            tfs_sorted(v, tfs, what, rec)
            compare_docs(v, docs, what, rec)
            rec.state((k, str(kw)))
        rec.trace()
        rec.outcome(k % 4)

    def run_scale(case, rec):
        n, vocab, verbose = case
        docs = [' '.join('w%d' % (gen.mix(i * 31 + j) % (1 + gen.mix(i * j + j) % vocab)) for j in range(i % 9)) + [' ', '\t', '', ' A. \u200b'][i % 4] for i in range(n)]
        # a document with a large count, a long one, one with every word
        docs += ['w1 ' * 70000, ' '.join('w%d' % i for i in range(0, 2 * vocab)), 'x ' * 300]
        for kw in (dict(), dict(min_tf=3, max_df=0.5), dict(min_df=0.001, stopwords={'w1', 'w2'})):
            v = BaseVectorizer(verbose=verbose, **kw)
            x = v.fit_transform(docs).tocsr()
            what = 'vectorizer %r fitted to %d documents over %d words' % (kw, len(docs), 2 * vocab)
            tfs = reference(docs, kw.get('min_tf', 0), kw.get('max_tf', 99999999), kw.get('min_df', 0), kw.get('max_df', 1.0), kw.get('stopwords', ()))
            rec.step(len(tfs))
            rec.check(dict(v.vocabulary_) == {w: i for i, w in enumerate(v.idx2vocab)} and set(v.vocabulary_) == set(tfs) and len(v) == len(tfs), '%s: vocabulary of %d words instead of %d', what, len(v), len(tfs))
            order = [tfs[w] for w in v.idx2vocab]
            rec.check(order == sorted(order, reverse=True), what + ': words are not in order of frequency')
            y = v.transform(docs).tocsr()
            want = []
            for d in docs:
                want.append({v.vocabulary_[t]: c for t, c in Counter(d.split()).items() if t in tfs})
            with tempfile.TemporaryDirectory() as tmp:
                p = os.path.join(tmp, 'x.mtx')
                v.to_file(docs, p)
                with open(p, encoding='utf-8') as f:
                    body = [l.split() for l in f if not l.startswith('%')]
                v.save(os.path.join(tmp, 'v'))
                u = BaseVectorizer(verbose=verbose)
                u.load(os.path.join(tmp, 'v'))
            rec.check(list(u.idx2vocab) == list(v.idx2vocab), what + ': saved and loaded words')
            rec.equal([int(a) for a in body[0]], [len(docs), len(tfs), sum(map(len, want))], what + ': size line of the file')
            cells = [{} for _ in docs]
            for i, j, c in body[1:]:
                cells[int(i) - 1][int(j) - 1] = int(c)
            rec.check(cells == want, what + ': cells of the file')
            for name, m in (('fit_transform', x), ('transform', y), ('transform after loading', u.transform(docs).tocsr())):
                rec.equal(tuple(m.shape), (len(docs), len(tfs)), '%s: shape from %s' % (what, name))
                m.sum_duplicates()
                for i in range(len(docs)):
                    rec.step()
                    row = dict(zip(m.indices[m.indptr[i]:m.indptr[i + 1]].tolist(), m.data[m.indptr[i]:m.indptr[i + 1]].tolist()))
                    rec.check({j: c for j, c in row.items() if c} == want[i], '%s: row %d from %s: %.200r instead of %.200r', what, i, name, row, want[i])
            for i in list(range(0, len(docs), 97)) + [len(docs) - 1, len(docs) - 2, len(docs) - 3]:
                toks = [t for t in docs[i].split() if t in tfs]
                rec.check(dict(v.encode_a_doc_to_bow(docs[i])) == want[i], '%s: bag of words of document %d', what, i)
                rec.check(list(v.decode_from_list(v.encode_a_doc_to_list(docs[i]))) == toks, '%s: list of document %d', what, i)
            rec.state((n, vocab, str(kw)))
        # options of every size
        for k in (1, 99, 1000, vocab, 2 * vocab):
            stop = ['w%d' % i for i in range(k)]
            for form in (set(stop), stop, {w: 1 for w in stop}):
                if isinstance(form, list) and k > 1000:
                    continue
                v = BaseVectorizer(verbose=False, stopwords=form)
                v.fit(docs[-40:])
                want = {t for d in docs[-40:] for t in d.split()} - set(stop)
                rec.check(set(v.vocabulary_) == want, '%d words instead of %d with %d stopwords', len(v), len(want), k)
                rec.step()
        counts = Counter(t for d in docs for t in d.split())
        for cut in sorted(set(counts.values()))[::max(1, len(set(counts.values())) // 8)]:
            for kw in (dict(min_tf=cut), dict(max_tf=cut), dict(min_tf=cut, max_tf=cut)):
                v = BaseVectorizer(verbose=False, **kw).fit(docs)
                want = {w for w, c in counts.items() if kw.get('min_tf', 0) <= c <= kw.get('max_tf', c)}
                rec.check(set(v.vocabulary_) == want, '%d words instead of %d with %r', len(v), len(want), kw)
                rec.step()
        rec.trace()
        rec.outcome(len(tfs))

    names = ['a', 'v', 'vocab', 'x.vocab', 'a.vocab.b', 'a.vocab.vocab', '.vocab', 'x.VOCAB', 'a.b', 'xvocab', 'x.vocabs', 'vocab.a', 'x.voca', '사 전', 'd.vocab/x', 'd.vocab/x.vocab', 'x.vocab ', 'abcde', 'abcdef', 'abcdefg']

    def run_names(i, rec):
        # every kind of file name: what is saved under a name is loaded from the name, and files of other names stay
        for j in range(len(names)):
            with tempfile.TemporaryDirectory() as tmp:
                os.mkdir(os.path.join(tmp, 'd.vocab'))
                mine = [['가', 'b'], ['c', '가', 'd']]
                for k, x in ((0, i), (1, j)):
                    v = BaseVectorizer(verbose=False)
                    v.fit([' '.join(mine[k])])
                    v.save(os.path.join(tmp, names[x]))
                same = len({n if n.endswith('.vocab') else n + '.vocab' for n in (names[i], names[j])}) == 1
                for x, want in ((i, mine[1] if same else mine[0]), (j, mine[1])):
                    u = BaseVectorizer(verbose=False)
                    u.load(os.path.join(tmp, names[x]))
                    rec.step()
                    rec.check(list(u.idx2vocab) == want and dict(u.vocabulary_) == {w: n for n, w in enumerate(want)} and len(u) == len(want),
                              'saved as %r, then another as %r: %r loaded from %r instead of %r', names[i], names[j], u.idx2vocab, names[x], want)
                found = sum(len(fs) for _, _, fs in os.walk(tmp))
                rec.check(found == (1 if same else 2), '%d files after saving as %r and %r', found, names[i], names[j])
                rec.state((i, j))
        rec.trace()
        rec.outcome('ok')

    return [
        Harness('names', run_names, list(range(len(names))), chunk=2, about='vocabularies saved under every pair of file names', bound='%d names' % len(names)),
        Harness('scale', run_scale, [[n, m, vb] for n, m in ((300, 40), (1500, 3000), (7000, 500), (70000 if deep else 12000, 20000)) for vb in (False, True)], chunk=1, about='thousands of documents and words, large counts, progress output on and off', bound='70000 documents' if deep else '12000 documents'),
        Harness('corpora', run, [list(t) for t in gen.tuples_upto(range(len(DOCS)), n, lo=1)], chunk=8, about='all collections over 9 documents x 162 configurations', bound='%d documents' % n),
        Harness('histories', run_ops, [[b, i] for b in range(3) for i in range(len(menu))], expand=expand, about='all call sequences over 10 calls, 3 configurations', bound='depth %d' % depth),
        Harness('long', run_long, list(range(1, 120 if deep else 40)), chunk=2, about='long periodic documents', bound='%d tokens' % (120 if deep else 40)),
    ]
