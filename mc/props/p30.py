"""P30: Bigram extractor."""
import itertools
import math

from mc import gen
from mc.core import Harness

PROP = dict(
    id='P30',
    title='The bigram extractor counts and scores adjacent word pairs exactly',
    statement=(
        'For every corpus, tokenizer and minimum frequency, the bigram extractor counts each adjacent pair of tokens within a sentence and keeps the pairs that reach the minimum frequency (with a filtering checkpoint, pairs below it are forgotten before every such sentence number). '
        'With u the summed frequency of the kept pairs a word takes part in, the score is the frequency, or log(2 * total * frequency / (u(first) * u(second))) for pmi, or (frequency - minimum) / (u(first) * u(second)) for mikolov; extract() returns each pair whose score reaches the threshold with frequency and score, and only the topk best if topk is positive. '
        'Training again forgets the previous corpus, and extraction changes nothing.'),
    quantifier=dict(over=['inputs', 'configurations', 'histories'], text='all corpora, frequencies, thresholds, numbers of results, and scoring methods'),
    why_tests_cant='No test calls the bigram extractor at all.',
    anchors=dict(files=['soynlp/word/_phrase.py'], mechanism=[dict(name='Bigram.train / extract', where='soynlp/word/_phrase.py')],
                 state=[dict(name='bigram and unigram counters', meaning='kept pairs of the last corpus', where='soynlp/word/_phrase.py')],
                 observe_at=['Bigram.train', 'Bigram.extract'], hook_needed=None))

CHECK = dict(
    technique='bounded-exhaustive enumeration of corpora x configurations x extraction sequences on the real extractor against a pair-count model',
    level_note='All corpora of up to 3 sentences over all sentences of up to 4 (thorough 5) letters in two vocabularies, all scoring methods, thresholds at and between the occurring scores, and all numbers of results.',
    assumptions=['which of equally scored pairs fill the last place is unspecified', 'ngram_selector is unspecified (it is never used)'])


def pairs_of(sents, tok, min_freq, checkpoint):
    cnt = {}
    for i, s in enumerate(sents):
        if checkpoint > 0 and i % checkpoint == 0:
            cnt = {p: c for p, c in cnt.items() if c >= min_freq}
        t = tok(s)
        for p in zip(t, t[1:]):
            cnt[p] = cnt.get(p, 0) + 1
    return {p: c for p, c in cnt.items() if c >= min_freq}


def score_all(cnt, method, min_freq):
    u = {}
    for p, c in cnt.items():
        for w in p:
            u[w] = u.get(w, 0) + c
    total = sum(cnt.values())
    if method == 'frequency':
        return dict(cnt)
    if method == 'pmi':
        return {(a, b): math.log(2 * total * c / (u[a] * u[b])) for (a, b), c in cnt.items()}
    return {(a, b): (c - min_freq) / (u[a] * u[b]) for (a, b), c in cnt.items()}


def harnesses(tier):
    from soynlp.word._phrase import Bigram
    deep = tier == 'thorough'

    def compare(bg, cnt, method, min_freq, what, rec, ks, ths):
        scores = score_all(cnt, method, min_freq)
        values = sorted(set(scores.values()))
        eps = 1e-9
        for th in ths + [v + d for v in values[:3] + values[-1:] for d in (-eps * 10, eps * 10)]:
            full = {p: s for p, s in scores.items() if s >= th}
            if any(abs(s - th) < eps and (s != th or method == 'pmi') for s in scores.values()):
                continue
            for k in ks:
                got = bg.extract(topk=k, threshold=th)
                rec.step()
                w = 'extract(topk=%d, threshold=%r, %s) of %s' % (k, th, method, what)
                n = min(k, len(full)) if k > 0 else len(full)
                rec.check(len(got) == n, '%s: %d results instead of %d: %r', w, len(got), n, got)
                best = sorted(full.values(), reverse=True)[:n]
                for p, s in got.items():
                    rec.check(p in full and s[0] == cnt[p] == s.frequency and abs(s[1] - full[p]) <= eps * max(1, abs(full[p])) and s[1] == s.score, '%s: %r has %r, reference frequency %r and score %r', w, p, s, cnt.get(p), full.get(p))
                rec.check(all(abs(a - b) < eps for a, b in zip(sorted((s[1] for s in got.values()), reverse=True), best)), '%s: scores %r, best are %r', w, got, best)
        rec.outcome((len(cnt), method))

    def run_corpora(case, rec):
        first, method, mf, cp = case
        sents = list(gen.words_upto('ab', 3)) + list(gen.words('abc', 4 if deep else 3))[:: 1 if deep else 2]
        bg = Bigram(min_frequency=mf, verbose=False, score=method, filtering_checkpoint=cp, tokenizer=list)
        for second in sents:
            for third in ([None, first, 'ababa', 'cacbab'] if not deep else [None, first, 'ababa', 'cacbab', 'abcabc', 'bbbb']):
                corpus = [first, second] + ([] if third is None else [third])
                rec.state((method, mf, cp, tuple(corpus)))
                bg.train(iter(corpus))
                cnt = pairs_of(corpus, list, mf, cp)
                compare(bg, cnt, method, mf, repr(corpus) + ' min_frequency=%d checkpoint=%d' % (mf, cp), rec, (-1, 0, 1, 2, 3, 100), [-100, 0])
                rec.trace()
        rec.sample(case)

    texts = ['가 나 가 나', '', ' 나  가\t나 ', '가', '나 나 나 나', '다 가 나 다 가', '가나 다 가나 다']

    def run_history(case, rec):
        # all sequences of corpora trained on one extractor, default tokenizer, constructor or train
        seq, method, via = case
        for mf in (1, 2):
            bg = None
            for a in seq:
                corpus = [texts[i] for i in a]
                if bg is None and via == 'init':
                    bg = Bigram(corpus, min_frequency=mf, verbose=False, score=method)
                else:
                    bg = bg or Bigram(min_frequency=mf, verbose=False, score=method)
                    bg.train(corpus)
                rec.state((tuple(map(tuple, seq)), method, via, mf))
                cnt = pairs_of(corpus, str.split, mf, 0)
                for _ in (0, 1):
                    compare(bg, cnt, method, mf, repr(corpus) + ' after %r' % (seq,), rec, (-1, 1, 2), [-100])
            rec.trace()

    def run_many(case, rec):
        # long corpora: default configuration, filtering between sentences
        method, n, cp, mf = case
        corpus = [' '.join('w%d' % (i * i % m) for i in range(j % 5 + 2)) + ' w%d' % (j % 3) for j in range(n) for m in (2 + j % 6,)]
        bg = Bigram(verbose=False, score=method, filtering_checkpoint=cp, **({} if mf is None else dict(min_frequency=mf)))
        bg.train(corpus)
        mf = 5 if mf is None else mf
        rec.state(tuple(map(str, case)))
        cnt = pairs_of(corpus, str.split, mf, cp)
        compare(bg, cnt, method, mf, 'periodic corpus of %d sentences, checkpoint=%d, min_frequency=%d' % (n, cp, mf), rec, (-1, 1, 5, 20), [-100, 0, 10])
        compare(bg, cnt, method, mf, 'the same, again', rec, (-1,), [-100])
        rec.trace()

    def run_scale(case, rec):
        # thousands of sentences, different pairs and unusual words; with and without progress output
        n, vocab, blank, verbose = case
        odd = ['A', 'a', '.', '\u200b', 'a\u0301', '🙂', '1', 'a.']
        corpus = []
        for i in range(n):
            corpus.append(blank.join(odd[gen.mix(i + j) % 8] if gen.mix(i * j + 1) % 9 == 0 else 'w%d' % (gen.mix(i * 37 + j) % (1 + gen.mix(j + i) % vocab)) for j in range(gen.mix(i) % 8)) + ['', '\n', ' '][i % 3])
        corpus += ['x y ' * 20000, ' '.join('u%d' % i for i in range(vocab))] if n > 1000 else []
        for method, mf, cp in (('frequency', 1, 0), ('pmi', 2, 1000), ('mikolov', 5, 100000), ('pmi', 1, 10 ** 6), ('frequency', 3, 3001)):
            rec.state((n, vocab, blank, method, mf, cp))
            bg = Bigram(corpus, min_frequency=mf, score=method, filtering_checkpoint=cp, **({} if verbose else dict(verbose=False)))
            cnt = pairs_of(corpus, str.split, mf, cp)
            for again in (0, 1):
                compare(bg, cnt, method, mf, 'corpus of %d sentences, checkpoint=%d, min_frequency=%d' % (len(corpus), cp, mf), rec, (-1, 10, 3000), [-100, 0.0012345, 2.5012345] if not again else [-100])
                bg.train(corpus)
        rec.trace()

    gap_menu = ['', 'a', 'a b', 'b a b', '   ']

    def run_gaps(case, rec):
        # corpora with empty and one-word sentences anywhere
        for rest in itertools.product(range(len(gap_menu)), repeat=6 - len(case)):
            idx = tuple(case) + rest
            corpus = [gap_menu[i] for i in idx]
            for mf, cp in ((1, 0), (2, 2), (2, 3)):
                rec.state((idx, mf, cp))
                method = methods[sum(idx) % 3]
                bg = Bigram(corpus, min_frequency=mf, verbose=False, score=method, filtering_checkpoint=cp)
                compare(bg, pairs_of(corpus, str.split, mf, cp), method, mf, '%r min_frequency=%d checkpoint=%d' % (corpus, mf, cp), rec, (-1, 1), [-100])
                if idx[0] == 2:
                    rec.own(lambda: bg.extract(topk=-1, threshold=-100), 'extraction from %r' % corpus)
        rec.trace()

    methods = ['frequency', 'pmi', 'mikolov']
    menus = [list(c) for k in (0, 1, 2) for c in itertools.product(range(len(texts)), repeat=k)]
    menus = [m for m in menus if len(m) < 2 or m[0] <= m[1]]
    seqs = [[a, b] for a in menus for b in menus[:: 1 if deep else 5]]
    return [
        Harness('corpora', run_corpora, [[s, m, mf, cp] for s in gen.words_upto('ab', 4) for m in methods for mf in (1, 2, 3) for cp in (0, 1, 2)], about='all corpora of 2 or 3 sentences over two- and three-letter vocabularies', bound='sentence length <= 4'),
        Harness('histories', run_history, [[s, m, v] for s in seqs for m in methods for v in ('init', 'train')], chunk=16, about='all sequences of two corpora trained on one extractor', bound='7 sentences, corpora of 0-2'),
        Harness('scale', run_scale, [[n, m, b, v] for n, m, b in ((200, 30, ' '), (3500, 300, '\t'), (6500, 4000, '\u3000 '), (40000 if deep else 12000, 50, ' ')) for v in (False, True)], chunk=1, about='thousands of sentences and pairs, unusual words, progress output on and off', bound='40000 sentences' if deep else '12000 sentences'),
        Harness('gaps', run_gaps, [list(t) for t in itertools.product(range(len(gap_menu)), repeat=2)], about='corpora of six sentences, empty and short ones anywhere', bound='5^6'),
        Harness('long', run_many, [[m, n, cp, mf] for m in methods for n in (1, 7, 40, 130, 500) for cp in (0, 1, 10, 64, 100000) for mf in (None, 1, 2, 12)], chunk=8, about='long periodic corpora', bound='500 sentences'),
    ]
