"""P18: word-context co-occurrence matrix."""
import itertools
from collections import Counter

from mc import gen
from mc.core import Harness

PROP = dict(
    id='P18',
    title='The word-context matrix counts every co-occurrence within the window once',
    statement=(
        'sent_to_word_contexts_matrix lists each word occurring at least min_tf times exactly once, by decreasing number of occurrences. '
        'Entry (i, j) is the sum, over every occurrence of word i and every occurrence of word j in the same sentence at a distance d of 1 to windows tokens on either side, of 1, or of (windows - d + 1) / windows with dynamic weights; rarer words take part in no entry but keep their place when distances are counted, and sentences never share context. '
        'So the matrix is symmetric and square in the listed words, including words without any context.'),
    quantifier=dict(over=['inputs', 'configurations'], text='all sentence collections, windows, minimum counts and weightings'),
    why_tests_cant='The existing test only builds one matrix; positions near sentence ends, rare words inside the window and repeated words need all small sentences.',
    anchors=dict(files=['soynlp/vectorizer/_word_context.py'],
                 mechanism=[dict(name='sent_to_word_contexts_matrix', where='soynlp/vectorizer/_word_context.py')],
                 state=[], observe_at=['sent_to_word_contexts_matrix'], hook_needed=None))

CHECK = dict(
    technique='exhaustive enumeration of sentence collections x windows x minimum counts x weightings on the real code against an occurrence-pair reference',
    level_note='All token sequences up to length 7 (thorough 8) over 3 words cut into sentences at every single place, with windows 1-4 and 8, 3 minimum counts and both weightings; plus periodic sentences of up to 60 (200) tokens.',
    assumptions=['at least one sentence', 'the order of equally frequent words is unspecified'])


def reference(sents, windows, min_tf, dynamic, tok=str.split):
    tf = Counter(t for s in sents for t in tok(s))
    keep = {t for t, c in tf.items() if c >= min_tf}
    m = Counter()
    for s in sents:
        ws = tok(s)
        for i in range(len(ws)):
            for j in range(len(ws)):
                d = abs(i - j)
                if 1 <= d <= windows and ws[i] in keep and ws[j] in keep:
                    m[ws[i], ws[j]] += (windows - d + 1) / windows if dynamic else 1
    return {t: tf[t] for t in keep}, m


def harnesses(tier):
    from soynlp.vectorizer import sent_to_word_contexts_matrix as f
    deep = tier == 'thorough'

    def compare(sents, windows, min_tf, dynamic, rec, tokenizer=None, verbose=False):
        kw = {}
        if windows != 3:
            kw['windows'] = windows
        if min_tf != 10:
            kw['min_tf'] = min_tf
        if dynamic:
            kw['dynamic_weight'] = True
        if tokenizer:
            kw['tokenizer'] = tokenizer
        x, words = f(sents, verbose=verbose, **kw)
        tfs, want = reference(sents, windows, min_tf, dynamic, tokenizer or str.split)
        what = 'matrix of %r, windows %d, min_tf %d, dynamic %s' % (sents, windows, min_tf, dynamic)
        rec.equal(sorted(words), sorted(tfs), what + ': words')
        order = [tfs[w] for w in words]
        rec.check(order == sorted(order, reverse=True), '%s: words are not in order of frequency: %r' % (what, words))
        rec.equal(tuple(x.shape), (len(words), len(words)), what + ': shape')
        dense = x.toarray()
        for i, a in enumerate(words):
            for j, b in enumerate(words):
                rec.close(float(dense[i, j]), want.get((a, b), 0), '%s: entry (%s, %s)' % (what, a, b))

    n = 8 if deep else 7

    def run(case, rec):
        w, = case
        for cut in sorted({0, 1, len(w) // 2, len(w) - 1}) if w else [0]:
            sents = [' '.join(w[:cut]), ' '.join(w[cut:])]
            for windows in (1, 2, 3, 4, 8):
                for min_tf in (1, 2, 3):
                    for dyn in (False, True):
                        compare(sents, windows, min_tf, dyn, rec)
            rec.state((w, cut))
        rec.trace()
        rec.outcome(len(w))
        rec.sample(w)

    def canonical(w):
        # words are interchangeable: keep one representative of every renaming
        seen = []
        for c in w:
            if c not in seen:
                seen.append(c)
        return seen == sorted(seen)

    roots = [[w] for w in gen.words_upto('abc', n) if canonical(w) and ''.join(sorted(set(w))) in ('', 'a', 'ab', 'abc')]

    def run_long(case, rec):
        k = case
        sents = [' '.join('w%d' % (i * i % m) for i in range(k)) for m in (2, 3, 7, 11)]
        for windows, min_tf, dyn in itertools.product((1, 3, 8, 64), (1, 5, 10), (False, True)):
            compare(sents, windows, min_tf, dyn, rec, verbose=bool(k % 2))
            rec.state((k, windows, min_tf, dyn))
        compare(['가나 다라', '가'], 3, 1, False, rec, tokenizer=list)
        rec.trace()
        rec.outcome('ok')

    def run_scale(case, rec):
        n, vocab, length, windows, verbose = case
        odd = ['A', '.', '\u200b', 'a\u0301', '🙂', '\ufeff']
        sents = []
        for i in range(n):
            sents.append([' ', '\t', '  '][i % 3].join(odd[gen.mix(i + j) % 6] if gen.mix(i * j) % 11 == 0 else 'w%d' % (gen.mix(i * 131 + j) % (1 + gen.mix(j + i) % vocab)) for j in range(gen.mix(i) % length)))
        if length < 100 and windows < 20:
            sents.append(' '.join(['w1', 'w2'] * 40000))
        for min_tf in (1, 3, 10):
            for dyn in (False, True):
                x, words = f(sents, windows=windows, min_tf=min_tf, dynamic_weight=dyn, verbose=verbose)
                tf = Counter(t for s in sents for t in s.split())
                keep = {t: c for t, c in tf.items() if c >= min_tf}
                what = 'matrix of %d sentences, windows %d, min_tf %d, dynamic %s' % (len(sents), windows, min_tf, dyn)
                rec.check(len(words) == len(keep) and set(words) == set(keep), what + ': words')
                order = [keep[w] for w in words]
                rec.check(order == sorted(order, reverse=True), what + ': words are not in order of frequency')
                want = Counter()
                for s in sents:
                    ws = s.split()
                    for i, w in enumerate(ws):
                        if w in keep:
                            for d in range(1, min(windows, len(ws) - 1 - i) + 1):
                                if ws[i + d] in keep:
                                    weight = (windows - d + 1) / windows if dyn else 1
                                    want[w, ws[i + d]] += weight
                                    want[ws[i + d], w] += weight
                m = x.tocoo()
                got = Counter()
                for i, j, c in zip(m.row.tolist(), m.col.tolist(), m.data.tolist()):
                    got[words[i], words[j]] += c
                rec.equal(tuple(x.shape), (len(words), len(words)), what + ': shape')
                rec.step(len(want))
                for k in set(want) | set(got):
                    if abs(want[k] - got[k]) > 1e-7 * max(1, abs(want[k])):
                        rec.fail('%s: entry %r is %r instead of %r' % (what, k, got[k], want[k]))
                rec.state((n, vocab, length, windows, min_tf, dyn))
        rec.trace()
        rec.outcome(len(want))

    long_max = 200 if deep else 60
    return [
        Harness('scale', run_scale, [[n, m, l, w, bool(i % 2)] for i, (n, m, l, w) in enumerate([(300, 30, 20, 3), (3000, 500, 12, 3), (12000, 2000, 8, 2), (40, 300, 900, 20), (3, 20, 30000, 7), (70000 if deep else 11000, 50, 5, 1), (300, 30, 20, 300), (6000, 6000, 9, 5), (130000, 5, 3, 1)])], chunk=1, about='thousands of sentences and words, long sentences, wide windows, large counts', bound='130000 sentences'),
        Harness('sequences', run, roots, chunk=8, about='all token sequences up to renaming x cuts x windows x minimum counts x weightings', bound='length <= %d' % n),
        Harness('long', run_long, list(range(0, long_max, 2 if deep else 3)), about='long periodic sentences', bound='%d tokens' % long_max),
    ]
