"""P20: statistics of the word extractor."""
import math
from collections import Counter

from mc import gen
from mc.core import Harness

PROP = dict(
    id='P20',
    title='Word statistics equal their definitions, one by one and in bulk',
    statement=(
        'After training, the left frequency of a string is the number of words (of two or more characters) starting with it, up to one character beyond max_left_length, and its right frequency the number of such words strictly ending with it, up to max_right_length, both kept only when at least min_frequency. '
        'The forward cohesion of a string of n > 1 characters is (left frequency / left frequency of its first character)^(1/(n-1)), backward cohesion the same with right frequencies and the last character, both in [0, 1] and 0 for unseen or one-character strings. '
        'The extensions of a string on the right are the kept left frequencies of it plus one character, and the pairs (it at the end of a word, first character of the next word) seen more than once; on the left the kept right frequencies of one character plus it, and the pairs (last character of the previous word, it at the start of a word); neighbours wrap around within a sentence of two or more words. '
        'Accessor variety is the number of distinct extensions and branching entropy their entropy. The table of all word scores lists exactly the kept strings within the length limits and agrees with the one-word queries for every one of them.'),
    quantifier=dict(over=['inputs', 'configurations'], text='all corpora, length limits and minimum frequencies'),
    why_tests_cant='The existing test trains once on a sample corpus with default limits; limits, sentence ends and pruning thresholds need all small corpora.',
    anchors=dict(files=['soynlp/word/_word.py'],
                 mechanism=[dict(name='WordExtractor.train', where='soynlp/word/_word.py'), dict(name='cohesion_score / branching_entropy / accessor_variety / word_scores', where='soynlp/word/_word.py')],
                 state=[dict(name='substring and neighbour counts', meaning='kept statistics', where='soynlp/word/_word.py')],
                 observe_at=['frequency', 'words', 'word_scores', 'cohesion_score', 'branching_entropy', 'accessor_variety'], hook_needed=None))

CHECK = dict(
    technique='exhaustive enumeration of small corpora x length limits x minimum frequencies on the real extractor against a definition-level reference',
    level_note='All texts up to length 8 (thorough 10) over two letters and a space, alone and followed by fixed sentences, under 6 limit pairs and 3 minimum frequencies; plus patterned long words beyond all default limits. Every kept or potential string is queried singly and in bulk.',
    assumptions=['intermediate pruning (num_for_pruning) is not used here'])


class Model:
    """Definition-level statistics."""

    def __init__(self, maxl, maxr, minf):
        self.maxl, self.maxr, self.minf = maxl, maxr, minf
        self.L, self.R, self.A, self.B = Counter(), Counter(), Counter(), Counter()

    def train(self, sents, cumulate=True):
        if not cumulate:
            self.L, self.R, self.A, self.B = Counter(), Counter(), Counter(), Counter()
        for s in sents:
            ws = s.split()
            for w in ws:
                if len(w) >= 2:
                    for k in range(1, len(w) + 1):
                        if k <= self.maxl + 1:
                            self.L[w[:k]] += 1
                        if k < len(w) and k <= self.maxr:
                            self.R[w[len(w) - k:]] += 1
            if len(ws) >= 2:
                for i, w in enumerate(ws):
                    nxt, prv = ws[(i + 1) % len(ws)][0], ws[i - 1][-1]
                    for k in range(1, len(w) + 1):
                        if k == len(w) or k <= self.maxr:
                            self.A[w[len(w) - k:], nxt] += 1
                        if k == len(w) or k <= self.maxl:
                            self.B[prv, w[:k]] += 1
        self.L = Counter({k: v for k, v in self.L.items() if v >= self.minf})
        self.R = Counter({k: v for k, v in self.R.items() if v >= self.minf})
        self.A = Counter({k: v for k, v in self.A.items() if v > 1})
        self.B = Counter({k: v for k, v in self.B.items() if v > 1})
        self.index()

    def index(self):
        self.left, self.right = {}, {}
        for w, f in self.R.items():
            if len(w) > 1:
                self.left.setdefault(w[1:], []).append(f)
        for (c, w), f in self.B.items():
            self.left.setdefault(w, []).append(f)
        for w, f in self.L.items():
            if len(w) > 1:
                self.right.setdefault(w[:-1], []).append(f)
        for (w, c), f in self.A.items():
            self.right.setdefault(w, []).append(f)

    def freq(self, w):
        return self.L.get(w, 0), self.R.get(w, 0)

    def cohesion(self, w):
        if len(w) < 2:
            return 0, 0
        l, r = self.freq(w)
        return (0 if not l else (l / self.L[w[0]]) ** (1 / (len(w) - 1)), 0 if not r else (r / self.R[w[-1]]) ** (1 / (len(w) - 1)))

    def variety(self, w):
        return len(self.left.get(w, ())), len(self.right.get(w, ()))

    def entropy(self, w):
        out = []
        for t in (self.left, self.right):
            fs = t.get(w, ())
            s = sum(fs)
            out.append(-sum(f / s * math.log(f / s) for f in fs))
        return tuple(out)

    def words(self):
        return {w for w in self.L if len(w) <= self.maxl} | {w for w in self.R if len(w) <= self.maxr}

    def row(self, w):
        return self.cohesion(w) + self.entropy(w) + self.variety(w) + self.freq(w)


FIELDS = ('cohesion_forward', 'cohesion_backward', 'left_branching_entropy', 'right_branching_entropy', 'left_accessor_variety', 'right_accessor_variety', 'leftside_frequency', 'rightside_frequency')


def compare_pair(got, want, what, rec):
    rec.check(len(got) == 2, '%s: %r' % (what, got))
    rec.close(float(got[0]), want[0], what + ' (left / forward)')
    rec.close(float(got[1]), want[1], what + ' (right / backward)')


def compare_queries(e, m, strings, what, rec):
    for w in strings:
        rec.equal(tuple(e.frequency(w)), m.freq(w), '%s: frequency of %r' % (what, w))
        compare_pair(e.cohesion_score(w), m.cohesion(w), '%s: cohesion of %r' % (what, w), rec)
        compare_pair(e.accessor_variety(w), m.variety(w), '%s: accessor variety of %r' % (what, w), rec)
        compare_pair(e.branching_entropy(w), m.entropy(w), '%s: branching entropy of %r' % (what, w), rec)


def compare_table(scores, m, words, what, rec):
    rec.equal(set(scores), set(words), what + ': words')
    for w, s in scores.items():
        want = m.row(w)
        for name, b in zip(FIELDS, want):
            rec.close(float(getattr(s, name)), b, '%s: %s of %r' % (what, name, w))


def compare_bulk(e, m, what, rec):
    words = m.words()
    rec.equal(set(e.words()), words, what + ': words()')
    compare_table(e.word_scores(), m, words, what + ': word scores', rec)
    cps, bes, avs = e.all_cohesion_scores(), e.all_branching_entropy(), e.all_accessor_variety()
    for w in words:
        compare_pair(cps.get(w, (0, 0)), m.cohesion(w), '%s: bulk cohesion of %r' % (what, w), rec)
        compare_pair(bes.get(w, (0, 0)), m.entropy(w), '%s: bulk branching entropy of %r' % (what, w), rec)
        compare_pair(avs.get(w, (0, 0)), m.variety(w), '%s: bulk accessor variety of %r' % (what, w), rec)


LIMITS = [(10, 6), (1, 1), (2, 1), (1, 3), (3, 2), (2, 4)]
EXTRA = [[], ['ab ab aab', 'ba'], ['aa b aa b', 'ab ba']]


def harnesses(tier):
    from soynlp.word import WordExtractor
    deep = tier == 'thorough'
    n = 10 if deep else 8

    def run(case, rec):
        text = case
        for xi, extra in enumerate(EXTRA):
            sents = [text] + extra
            probes = {w[i:j] for s in sents for w in s.split() for i in range(len(w)) for j in range(i + 1, len(w) + 1)} | {'z', 'abz'}
            for maxl, maxr in LIMITS:
                for minf in (1, 2, 4):
                    m = Model(maxl, maxr, minf)
                    m.train(sents)
                    e = WordExtractor(max_left_length=maxl, max_right_length=maxr, min_frequency=minf, verbose_points=0)
                    e.train(sents)
                    what = 'extractor (limits %d, %d, minimum %d) trained on %r' % (maxl, maxr, minf, sents)
                    compare_bulk(e, m, what, rec)
                    if minf < 4 and (maxl, maxr) in LIMITS[::2]:
                        compare_queries(e, m, probes, what, rec)
                    rec.state((text, xi, maxl, maxr, minf))
        rec.trace()
        rec.outcome(len(text.split()))
        rec.sample(text)

    def swapped(t):
        return t.translate(str.maketrans('ab', 'ba'))

    texts = [t for t in gen.words_upto('ab ', n, lo=1) if t.split() and (len(t) < n - 1 or t[0] == 'a')]

    def run_long(case, rec):
        k, p = case
        sents = []
        for i in range(6):
            w = ''.join('가나다라마바사'[(i + j * p) % 7] for j in range(k))
            sents.append('%s %s %s' % (w, w[::-1], w[:i]))
            sents.append(w + ' ' + w[:k // 2])
        for kw in (dict(), dict(max_left_length=12, max_right_length=9), dict(max_left_length=4, max_right_length=7, min_frequency=2)):
            e = WordExtractor(verbose_points=(3 if k % 2 else 0), **kw)
            e.train(sents)
            m = Model(kw.get('max_left_length', 10), kw.get('max_right_length', 6), kw.get('min_frequency', 5))
            m.train(sents)
            what = 'extractor (%r) trained on words of length %d, step %d' % (kw, k, p)
            compare_bulk(e, m, what, rec)
            if gen.mix(k) % 3 == 0:
                compare_queries(e, m, sorted(m.words()), what, rec)
            rec.state((k, p, str(kw)))
        rec.trace()
        rec.outcome('long')

    def run_scale(case, rec):
        n, alpha, k, kw, verbose = case
        seq = ''.join(gen.debruijn(alpha, k))
        sents = []
        for i in range(n):
            b = (i * 7) % (len(seq) - 20)
            ws = [seq[b + j:b + j + 1 + gen.mix(i * 5 + j) % 9] for j in range(gen.mix(i) % 7)]
            sents.append([' ', '\t', '  ', '\u3000'][i % 4].join(ws))
        # words with many different neighbours inside words and across blanks, on both sides
        many = [chr(0xAC00 + 31 * j) for j in range(min(n, 700))]
        sents += ['%s %s %s%s %s%s' % (c, '갸', '갸', c, c, '갸') for c in many] * 2 + ['갸 %s %s 갸' % (c, c) for c in many[::3]] * 2
        sents += ['. 가A. .', '"가" \u200b. é', 'x' * 300 + ' ' + alpha * 30] * 6
        e = WordExtractor(verbose_points=verbose, **kw)
        e.train(sents)
        m = Model(kw.get('max_left_length', 10), kw.get('max_right_length', 6), kw.get('min_frequency', 5))
        m.train(sents)
        what = 'extractor (%r) trained on %d sentences' % (kw, len(sents))
        compare_bulk(e, m, what, rec)
        compare_queries(e, m, sorted(m.words())[::7 if len(m.words()) < 3000 else 29] + ['갸', '가갸', 'x' * 10, '.', '가A', 'zz'], what, rec)
        rec.state((n, alpha, k, str(kw)))
        rec.trace()
        rec.outcome(len(m.words()))

    return [
        Harness('scale', run_scale, [[n, a, k, kw, v] for n, a, k in ((300, 'abc', 4), (5500, 'abcd', 5), (22000 if not deep else 70000, 'ab가', 6)) for kw, v in ((dict(), 0), (dict(min_frequency=1, max_left_length=6), 100), (dict(min_frequency=40, max_left_length=3, max_right_length=9), 5000))], chunk=1, about='thousands of sentences, unusual characters, long words, progress output on and off', bound='70000 sentences' if deep else '22000 sentences'),
        Harness('corpora', run, texts, chunk=16, about='all texts x 2 further corpora x limits x minimum frequencies', bound='length <= %d' % n),
        Harness('long', run_long, [[k, p] for k in range(2, 24 if deep else 16) for p in (0, 1, 2, 3)], about='long patterned words around the default limits', bound='word length %d' % (24 if deep else 16)),
    ]
