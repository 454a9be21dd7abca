"""P33: LRNounExtractor (version 1) and the score of the news noun extractor."""
import contextlib
import io
import itertools
import os
import shutil
import tempfile

from mc import gen
from mc.core import Harness

PROP = dict(
    id='P33',
    title='Noun extractor v1 scores, extracts and counts nouns exactly',
    statement=(
        'For every Hangul corpus, R score table (the best of its scores for an R part listed more than once) and threshold, LRNounExtractor counts the eojeol splits whose L part begins and whose nonempty R part ends (as a proper suffix) at least the minimum number of eojeols; the score of a word followed by more than min_num_of_features different nonempty R parts is the count-weighted mean of their table scores, R parts to which an ending of the word gives a longer known R part left out, with the share of known counts as known ratio. '
        'A word with fewer R parts scores like the better of two nouns it is made of, or like the R part in the table (above the minimum score) after a noun, the best such split, otherwise 0. extract() goes from short to long words of two or more characters and keeps those that reach the minimum score, except those that end in a full stop or comma and noun + well-scored R words (above the minimum) of three or more characters that are less cohesive than without their last character; each noun has as frequency the count of eojeols that start with it and not with a longer noun found, and the graph stays as it was. '
        'The news noun extractor scores a word likewise, as the weighted mean over all known R parts with total count, known and eojeol proportions and positive-feature counts.'),
    quantifier=dict(over=['inputs', 'configurations'], text='all corpora, score tables and thresholds'),
    why_tests_cant='The one test prints the result for a sample corpus; scores, frequencies and filters are never compared.',
    anchors=dict(files=['soynlp/noun/_noun_ver1.py', 'soynlp/noun/_noun_news.py'],
                 mechanism=[dict(name='LRNounExtractor.train / predict / extract', where='soynlp/noun/_noun_ver1.py'),
                            dict(name='NewsNounExtractor.predict', where='soynlp/noun/_noun_news.py')],
                 state=[dict(name='L-R graph', meaning='eojeols not yet counted for a longer noun', where='soynlp/noun/_noun_ver1.py')],
                 observe_at=['train', 'extract', 'predict', 'is_noun', 'train_extract'], hook_needed=None))

CHECK = dict(
    technique='bounded-exhaustive enumeration of eojeol counts x thresholds x candidate lists on the real extractors against an independent reference extraction',
    level_note='All count vectors over fixed eojeol universes in which words nest, compose and share R parts, with a dyadic score table split over two files; the extractor is reused over all corpora of a root.',
    assumptions=['eojeols are complete Hangul (one harness: with punctuation) of at most max_right_length characters or max_left_length where stated', 'extract() is called with minimum frequency 1', 'the better of equally scored splits is unspecified in its known ratio'])

COEF = {'은': 0.5, '는': 0.75, '에': 1.0, '에서': 1.0, '다': -1.0, '고': -0.5, '라은': 0.25, '국에': -0.25, '만': 0.625}


class Ref:
    def __init__(self, counts, min_freq, max_left, nf):
        self.nf = nf
        lf, rf = {}, {}
        for e, c in counts.items():
            for i in range(1, len(e) + 1) if c else ():
                if i <= max_left:
                    lf[e[:i]] = lf.get(e[:i], 0) + c
                if i < len(e):
                    rf[e[i:]] = rf.get(e[i:], 0) + c
        self.lf = {w: c for w, c in lf.items() if c >= min_freq}
        self.pairs = {}
        for e, c in counts.items():
            for i in range(1, min(len(e), max_left) + 1) if c else ():
                l, r = e[:i], e[i:]
                if l in self.lf and (not r or rf[r] >= min_freq):
                    self.pairs[l, r] = c

        self.table = {}
        for (l, r), c in self.pairs.items():
            self.table.setdefault(l, {})[r] = c

    def feats(self, word):
        return {r: c for r, c in self.table.get(word, {}).items() if r}

    def predict(self, word, min_score, nouns):
        """set of acceptable (score, ratio)"""
        f = self.feats(word)
        if len(f) > self.nf:
            score = norm = unk = 0
            for r, c in f.items():
                if r not in COEF:
                    unk += c
                elif not any(word[i:] + r in COEF for i in range(len(word))):
                    score += c * COEF[r]
                    norm += c
            return {(score / norm if norm else 0, norm / (norm + unk) if norm + unk else 0)}
        opts = set()
        for i in range(1, len(word)):
            a, b = word[:i], word[i:]
            if a in nouns and b in nouns:
                opts.add(max(nouns[a], nouns[b]))
            elif a in nouns and COEF.get(b, 0.0) > min_score:
                opts.add((COEF[b], 0))
        if not opts:
            return {(0.0, 0)}
        best = max(o[0] for o in opts)
        return {o for o in opts if o[0] == best}

    def extract(self, min_score, cands):
        """(nouns, ambiguous)"""
        nouns = {}
        for w in sorted(cands, key=len):
            if len(w) < 2:
                continue
            p = self.predict(w, min_score, nouns)
            if len(p) > 1:
                return None
            p = next(iter(p))
            if p[0] >= min_score:
                nouns[w] = p
        keep = {}
        for w, s in nouns.items():
            n = len(w)
            if w[-1] in '.,':
                continue
            if n > 2:
                b, a, c = self.lf.get(w[0], 0), self.lf.get(w, 0), self.lf.get(w[:-1], 0)
                if b:
                    x, y = a ** (n - 2) * b, c ** (n - 1)
                    if x == y and a != b and a:
                        return None
                    larger = x >= y
                else:
                    larger = True
                if not larger and any(w[:e] in nouns and COEF.get(w[e:], 0.0) > min_score for e in range(2, n)):
                    continue
            keep[w] = s
        pairs = dict(self.pairs)
        out = {}
        for w in sorted(keep, key=lambda w: -len(w)):
            fs = {r: pairs[w, r] for r in self.table.get(w, ()) if (w, r) in pairs}
            out[w] = (sum(fs.values()),) + keep[w]
            for r, c in fs.items():
                e = w + r
                for i in range(1, len(e) + 1):
                    k = e[:i], e[i:]
                    if k in pairs:
                        pairs[k] -= c
                        if pairs[k] <= 0:
                            del pairs[k]
        return out


def harnesses(tier):
    from soynlp.noun import LRNounExtractor, NewsNounExtractor
    deep = tier == 'thorough'
    cache = {}

    def make(cls, **kw):
        key = (cls.__name__, tuple(sorted(kw.items())))
        if key not in cache:
            import contextlib
            import io
            with tempfile.TemporaryDirectory() as d:
                names = ['%s/%d' % (d, i) for i in (0, 1)]
                for i, name in enumerate(names):
                    with open(name, 'w', encoding='utf8') as f:
                        for r, s in sorted(COEF.items())[i::2]:
                            f.write('%s\t%r\n' % (r, s))
                        f.write('은\t%r\n' % (0.5 - i))    # the larger score of several files counts
                with contextlib.redirect_stdout(io.StringIO()):
                    cache[key] = cls(predictor_fnames=names, **dict(dict(verbose=False), **kw))
        return cache[key]

    def one(ex, counts, min_freq, max_left, nf, min_score, cands, rec, full=True, lines=2):
        words = [e for e, c in counts.items() for _ in range(c)]
        ref = Ref(counts, min_freq, max_left, nf)
        sents = [' '.join(words[i::lines]) for i in range(lines)]
        what = 'counts=%r min_frequency=%d max_left=%d min_features=%d min_score=%r candidates=%r' % (counts, min_freq, max_left, nf, min_score, cands)
        ex.train(sents, min_freq)
        want = ref.extract(min_score, cands or ref.lf)
        if want is not None and (cands or ref.lf):
            got = ex.extract(min_score, 1, cands)
            rec.step()
            ok = set(got) == set(want) and all(got[w][0] == want[w][0] and abs(got[w][1] - want[w][1]) < 1e-9 and abs(got[w][2] - want[w][2]) < 1e-9 for w in want)
            rec.check(ok, 'nouns of %s: implementation gives %r, reference gives %r', what, {w: tuple(s) for w, s in got.items()}, want)
            rec.check(all(tuple(s) == (s.frequency, s.score, s.known_r_ratio) for s in got.values()), 'fields of %r', got)
            rec.outcome(len(got))
        if full:
            for l in sorted({l for l, _ in ref.pairs}):
                rec.equal(dict(ex.lrgraph.get_r(l, -1)), {r: c for (l2, r), c in ref.pairs.items() if l2 == l}, 'R parts of %r after extraction, %s' % (l, what))
                p = ref.predict(l, min_score, {})
                got = ex.predict(l)
                rec.close(got[0], max(p)[0], 'score of %r, %s' % (l, what))
                rec.check(any(abs(got[1] - x[1]) < 1e-9 for x in p), 'known ratio of %r, %s: %r, reference %r', l, what, got, p)
                rec.equal(bool(ex.is_noun(l, min_score)), max(p)[0] >= min_score, 'is_noun(%r, %r), %s' % (l, min_score, what))
        rec.trace()

    eoj = ['나라', '나라은', '나라에', '나라에서', '나라다', '나라국', '나라국에', '나라국은', '국민은', '국민에', '나라국민', '나라국민은', '나라가', '나라만']

    def run_counts(case, rec):
        first, nf, ms = case
        ex = make(LRNounExtractor, min_num_of_features=nf)
        for rest in itertools.product([0, 1, 3] if deep else [0, 2], repeat=len(eoj) - len(first) - (2 if deep else 0)):
            v = tuple(first) + rest
            if not any(v):
                continue
            rec.state((v, nf, ms))
            one(ex, dict(zip(eoj, v)), 1, 10, nf, ms, None, rec, full=sum(v) % 10 == 0)
        rec.sample(case)

    base = dict(zip(eoj, (2, 1, 3, 1, 1, 2, 1, 1, 2, 1, 1, 2, 4, 1)))

    def run_limits(case, rec):
        mf, ml, nf, ms, skip = case
        ex = make(LRNounExtractor, min_num_of_features=nf, max_left_length=ml)
        menu = ['나라', '나라국', '나라국민', '국민', '나라만', '책', '나라국민은', '나라가']
        for k in range(len(menu) + 1):
            for cs in itertools.combinations(menu, k):
                counts = {e: c for i, (e, c) in enumerate(base.items()) if i not in skip}
                rec.state((mf, ml, nf, ms, tuple(skip), cs))
                one(ex, counts, mf, ml, nf, ms, list(cs), rec, full=gen.mix(k) % 4 == 0)
        rec.sample(case)

    def run_long(case, rec):
        # long words: the left limit decides which words are seen
        n, ml, josas, ms = case
        ex = make(LRNounExtractor, max_left_length=ml, max_right_length=40)
        word = ('가나다라마바사아자차카타파하' * 3)[:n]
        counts = {word + j: 1 + i for i, j in enumerate(josas)}
        counts[word[:-1]] = 2
        counts[word[:-2] + '에'] = counts[word[:-2] + '만'] = 3
        for k in (2, 3, 5):
            counts[word[:k] + '은'], counts[word[:k] + '에'] = k, 1
        rec.state(tuple(map(str, case)))
        one(ex, counts, 1, ml, 1, ms, None, rec)

    def run_news(case, rec):
        first, basedict = case
        ex = make(NewsNounExtractor) if basedict is None else make(NewsNounExtractor, base_noun_dictionary=tuple(basedict))
        for rest in itertools.product([0, 1, 3], repeat=10 - len(first)):
            v = tuple(first) + rest
            if not any(v):
                continue
            counts = dict(zip(eoj, v))
            ex.train([' '.join(e for e, c in counts.items() for _ in range(c))])
            rec.state((v, basedict is None))
            for w in ('나라', '나라국', '나라에', '없다'):
                fs = {e[len(w):]: c for e, c in counts.items() if c and e.startswith(w)}
                known = {r: c for r, c in fs.items() if r in COEF}
                total, norm, end = sum(fs.values()), sum(known.values()), fs.get('', 0)
                want = (sum(c * COEF[r] for r, c in known.items()) / norm if norm else 0, total, norm / (total - end) if total > end else 0,
                        end / total if total else 0, sum(1 for r in known if COEF[r] > 0), sum(1 for r in known if COEF[r] > 0) / len(known) if known else 0)
                got = ex.predict(w)
                rec.step()
                rec.check(len(got) == 6 and all(abs(a - b) < 1e-9 for a, b in zip(got, want)), 'news score of %r with counts %r: implementation gives %r, reference gives %r', w, counts, tuple(got), want)
                rec.check(tuple(got) == (got.score, got.frequency, got.feature_proportion, got.eojeol_proportion, got.n_positive_feature, got.unique_positive_feature_proportion), 'fields of %r', got)
                rec.outcome(round(want[0], 2))
            rec.trace()
        rec.sample(case)

    def run_tables(case, rec):
        # an R part may be listed in several tables, or twice in one: its best score counts
        vals = [None, -0.5, 0.0, 0.25, 0.75]
        for rest in itertools.product(vals, repeat=2):
            v = tuple(case) + rest          # 은 in a, 은 in b, 은 in b again, 는 in a, 는 in b
            lines = [[('은', v[0]), ('는', v[3])], [('은', v[1]), ('은', v[2]), ('는', v[4])]]
            best = {}
            for t in lines:
                for r, x in t:
                    if x is not None:
                        best[r] = max(best.get(r, -9), x)
            if not best:
                continue
            d = tempfile.mkdtemp()
            try:
                for k, t in enumerate(lines):
                    with open('%s/%d' % (d, k), 'w', encoding='utf8') as f:
                        f.write(''.join('%s\t%s\n' % (r, x) for r, x in t if x is not None))
                for order in ((0, 1), (1, 0)):
                    names = ['%s/%d' % (d, k) for k in order]
                    counts = {'나라은': 1, '나라는': 2, '나라만': 1}
                    want = sum(c * best[w[2:]] for w, c in counts.items() if w[2:] in best) / sum(c for w, c in counts.items() if w[2:] in best)
                    for cls in (LRNounExtractor, NewsNounExtractor):
                        with contextlib.redirect_stdout(io.StringIO()):
                            ex = cls(verbose=False, predictor_fnames=names)
                            args = ([' '.join(e for e, c in counts.items() for _ in range(c)), ''],)
                            ex.train(*args, **({'min_noun_frequency': 1} if cls is LRNounExtractor else {}))
                        rec.close(ex.predict('나라')[0], want, '%s with tables %r in order %r: score of 나라' % (cls.__name__, lines, order))
                    rec.state((v, order))
            finally:
                shutil.rmtree(d)
        rec.trace()
        rec.outcome('ok')

    def run_punctuation(case, rec):
        # texts that are not normalized on request: words that end in a full stop or comma are no nouns
        nf, ms, v = case
        ex = make(LRNounExtractor, min_num_of_features=nf, ensure_normalized=True)
        for rest in itertools.product((0, 1, 3), repeat=5):
            counts = dict(zip(('나라.은', '나라.에', '나라,은', '나라,에', '나라!은'), rest))
            counts.update({'나라은': v, '나라에': 1, '나라.': 1, '나라!에': 2, '나라-는': 1, '나라.국은': 1, '나라.국에': 2})
            rec.state((nf, ms, v, rest))
            one(ex, counts, 1, 10, nf, ms, None, rec, full=rest[0] == 1)

    def run_cohesion(case, rec):
        # long nouns with long R parts: the cohesion filter in every length
        k, j, ms = case
        noun = '가나다라마바사아자'[:k]
        ex = make(LRNounExtractor, max_left_length=12, max_right_length=12)
        for v in itertools.product((1, 2, 5), repeat=4):
            for alone in (0, 4, 40):
                counts = {noun: alone, noun + '은': v[0], noun + '는': v[1], noun + j: v[2], noun + j + '는': v[3], noun + j + '은': 1, noun[0]: 3}
                rec.state((k, j, ms, v, alone))
                one(ex, counts, 1, 12, 1, ms, None, rec, full=v[0] == 1)

    # -- large corpora and counts, messages on, a corpus of thousands of lines
    def run_scale(case, rec):
        kind, verbose, norm = case
        opts = dict(verbose=verbose, ensure_normalized=norm)
        syl = '가나다라마바사아자차카타파하거너더러머버서어'
        if kind == 'nouns':
            nouns = [a + b for a in syl for b in syl if a != b]
            counts = {}
            for i, n in enumerate(nouns):
                for j, f in enumerate(('은', '는', '에', '에서', '다', '만', '요')):
                    c = (i * 5 + j * 3 + i // 7) % 4
                    if c:
                        counts[n + f] = c
                if i % 4 == 0:
                    counts[n + nouns[(i * 5 + 3) % len(nouns)]] = 2
            for mf, nf, ms in ((1, 1, 0.25), (1, 2, 0.5), (3, 0, 0.25)):
                rec.state((verbose, norm, mf, nf, ms))
                one(make(LRNounExtractor, min_num_of_features=nf, **opts), counts, mf, 10, nf, ms, None, rec, full=False, lines=1500)
        elif kind == 'features':
            rs = [a + b for a in syl for b in syl][:400]
            for n in (1, 100, 399):
                counts = {'책' + r: 1 + i % 3 for i, r in enumerate(rs[:n])}
                counts.update({'책은': 4, '책에': 1, '책상은': 3, '책상에': 2, '책': 7})
                rec.state((verbose, norm, n))
                one(make(LRNounExtractor, min_num_of_features=1, **opts), counts, 1, 10, 1, 0.25, None, rec, full=False, lines=3)
        else:
            for v in itertools.product((1, 1000, 20000), repeat=4):
                counts = {'나라은': v[0], '나라에': v[1], '나라국은': v[2], '나라국': v[3], '나라다': 5, '나라국에서': 3}
                rec.state((verbose, norm, v))
                one(make(LRNounExtractor, min_num_of_features=1, **opts), counts, 1, 10, 1, 0.25, None, rec, full=False, lines=2)
        rec.sample(case)

    return [
        Harness('scale', run_scale, [[k, v, n] for k in ('nouns', 'features', 'counts') for v in (False, True) for n in ((False, True) if k != 'counts' else (True,))], about='462 two-syllable nouns over 1,500 lines, a word before 400 R parts, counts up to 20,000; messages on and off, with and without normalization', bound='9 large corpora, 81 count vectors'),
        Harness('tables', run_tables, [list(t) for t in itertools.product([None, -0.5, 0.0, 0.25, 0.75], repeat=3)], about='every way to list two R parts in two tables', bound='5^5 tables x 2 orders x 2 extractors'),
        Harness('punctuation', run_punctuation, [[nf, ms, v] for nf in (0, 1, 2) for ms in (0.25, 0.5) for v in (1, 4)], about='words that end in or contain punctuation in texts taken as they are', bound='3^5 counts'),
        Harness('cohesion', run_cohesion, [[k, j, ms] for k in range(2, 8) for j in ('에', '에서', '만', '라은', '는', '은') for ms in (0.25, 0.5)], about='noun + R part words of every length', bound='nouns of 2-7 characters'),
        Harness('counts', run_counts, [[list(f), nf, ms] for f in itertools.product([0, 1, 3] if deep else [0, 2], repeat=5) for nf in (0, 1, 2) for ms in (0.25, 0.5)], chunk=2, about='every count vector over nesting and composed eojeols', bound='14 eojeols' if not deep else '12 eojeols, counts 0,1,3'),
        Harness('limits', run_limits, [[mf, ml, nf, ms, list(sk)] for mf in (1, 2, 3, 5) for ml in (2, 3, 4, 10) for nf in (0, 1) for ms in (0.25, 0.5) for sk in ([], [2, 3], [5, 8], [0, 1, 4])], chunk=2, about='minimum frequency, left limit and every candidate subset', bound='4 x 4 x 2 x 2 x 4 x 2^8'),
        Harness('long', run_long, [[n, ml, list(j), ms] for n in (5, 9, 10, 11, 12, 13, 20) for ml in (4, 10, 12, 20) for j in (['은', '에'], ['은', '는', '에서'], ['', '은', '다', '고'], ['가', '은', '만']) for ms in (0.25, 0.5)], chunk=8, about='words around and beyond the left limit', bound='length <= 20'),
        Harness('news', run_news, [[list(f), b] for f in itertools.product([0, 1, 3], repeat=3) for b in (None, ['나라', '책'])], about='news noun extractor score for every count vector', bound='10 eojeols, counts 0,1,3'),
    ]
