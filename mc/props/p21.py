"""P21: word extraction thresholds, repeated training, save and load."""
import itertools
import os
import tempfile

from mc import gen
from mc.core import Harness
from mc.props.p20 import Model, compare_bulk, compare_queries, compare_table

PROP = dict(
    id='P21',
    title='Word extraction applies thresholds exactly and survives retraining and saving',
    statement=(
        'extract returns exactly the words of the score table that reach every configured minimum (both branching entropies, both accessor varieties, the larger of the two frequencies and, for two or more characters, both cohesions) with their scores unchanged; with subword removal a word is left out exactly when some extracted candidate extends it by one character and keeps more than the allowed share of its left frequency. '
        'Training again adds to the counts that the previous training kept, or starts from nothing when not cumulating; pruning during training only ever removes counts, never invents them, and every kept count stays at least the minimum frequency. '
        'Saving and loading reproduces limits, thresholds and statistics, hence all scores and extractions, in any extractor whatever it did before.'),
    quantifier=dict(over=['inputs', 'configurations', 'histories'], text='all corpora, threshold settings and training / save / load histories'),
    why_tests_cant='The existing test extracts once with default thresholds; each threshold has to be exercised at, above and below the values that occur.',
    anchors=dict(files=['soynlp/word/_word.py'],
                 mechanism=[dict(name='WordExtractor.extract', where='soynlp/word/_word.py'), dict(name='WordExtractor.train', where='soynlp/word/_word.py'), dict(name='WordExtractor.save / load', where='soynlp/word/_word.py')],
                 state=[dict(name='counts and thresholds', meaning='what save stores', where='soynlp/word/_word.py')],
                 observe_at=['extract', 'word_scores', 'save', 'load'], hook_needed=None))

CHECK = dict(
    technique='exhaustive enumeration of corpora x every threshold value that separates the occurring scores; explicit-state search over all training / configuration / save / load sequences',
    level_note='For every corpus of up to 3 (thorough 4) of 7 sentences each threshold is set to every value between consecutive occurring scores and to exactly representable occurring values; all operation sequences of depth 4 (5) over a 9-operation menu.',
    assumptions=['thresholds are compared at values at least 1e-9 away from an occurring irrational score'])

SENTS = ['ab ab', 'abc ab a', 'ba b', 'aab aab aa', 'abab c', 'cab cab', 'a']


def extracted(m, kw):
    """Definition of extract on model m with thresholds kw."""
    t = dict(min_cohesion_forward=0.05, min_cohesion_backward=0.0, max_droprate_leftside_frequency=0.98, min_left_branching_entropy=0.0, min_right_branching_entropy=0.0,
             min_left_accessor_variety=0, min_right_accessor_variety=0, remove_subwords=False)
    t.update(kw)
    ok = set()
    for w in m.words():
        cf, cb, bl, br, al, ar, fl, fr = m.row(w)
        if bl < t['min_left_branching_entropy'] or br < t['min_right_branching_entropy'] or al < t['min_left_accessor_variety'] or ar < t['min_right_accessor_variety']:
            continue
        if max(fl, fr) < m.minf:
            continue
        if len(w) >= 2 and (cf < t['min_cohesion_forward'] or cb < t['min_cohesion_backward']):
            continue
        ok.add(w)
    if not t['remove_subwords']:
        return ok
    gone = {w[:-1] for w in ok if len(w) > 1 and m.L.get(w[:-1], 0) and m.L.get(w, 0) / m.L[w[:-1]] > t['max_droprate_leftside_frequency']}
    return ok - gone


def between(pairs):
    """Thresholds between consecutive occurring values, and the occurring values whose computation is exact."""
    vs = sorted({round(v, 12) for v, _ in pairs})
    inexact = {round(v, 12) for v, exact in pairs if not exact}
    out = [0.0, 1e9]
    for a, b in zip(vs, vs[1:]):
        if b - a > 1e-6:
            out.append((a + b) / 2)
    out += [v for v in vs if v in (0.0, 1.0) or (v not in inexact and float(v * 64).is_integer())]
    return sorted(set(out))


def harnesses(tier):
    from soynlp.word import WordExtractor
    deep = tier == 'thorough'
    n = 4 if deep else 3
    names = ['min_cohesion_forward', 'min_cohesion_backward', 'min_left_branching_entropy', 'min_right_branching_entropy', 'min_left_accessor_variety', 'min_right_accessor_variety']

    def check_extract(e, m, kw, what, rec, scores=None):
        got = e.extract() if scores is None else e.extract(scores)
        want = extracted(m, kw)
        compare_table(got, m, want, what, rec)
        rec.outcome(min(len(want), 8))

    def settings(base, sents, m, rec):
        """Every threshold has its own value and travels through save and load."""
        odd = dict(min_cohesion_forward=0.11, min_cohesion_backward=0.12, max_droprate_leftside_frequency=0.63, min_left_branching_entropy=0.13, min_right_branching_entropy=0.14,
                   min_left_accessor_variety=1, min_right_accessor_variety=2, remove_subwords=True)
        with tempfile.TemporaryDirectory() as tmp:
            path = os.path.join(tmp, 'w.pkl')
            alone = [dict(min_cohesion_forward=0.0, **{k: v}) if k != 'min_cohesion_forward' else {k: v} for k, v in odd.items() if k != 'max_droprate_leftside_frequency']
            alone.append(dict(remove_subwords=True, max_droprate_leftside_frequency=0.45, min_cohesion_forward=0.0))
            for kw in [odd] + alone:
                e = WordExtractor(**base, **kw)
                e.train(sents)
                e.save(path)
                want = dict(vars(e))
                for other in (dict(), dict(odd, max_left_length=3, max_right_length=2, min_frequency=5)):
                    d = WordExtractor(**other)
                    d.load(path)
                    what = 'extractor with %r trained on %r and %r, saved and loaded into one with %r' % (base, sents, kw, other)
                    check_extract(d, m, kw, what, rec)
                    for name in sorted(set(odd) | {'max_left_length', 'max_right_length', 'min_frequency'}):
                        if name in want:
                            rec.equal(getattr(d, name, None), want[name], what + ': ' + name)
                    rec.own(d.extract, what)

    def run(case, rec):
        sents = [SENTS[i] for i in case]
        for maxl, maxr, minf in ((10, 6, 1), (10, 6, 2), (2, 2, 1)):
            m = Model(maxl, maxr, minf)
            m.train(sents)
            rows = [(w, m.row(w)) for w in m.words()]
            base = dict(max_left_length=maxl, max_right_length=maxr, min_frequency=minf, verbose_points=0)
            for k, name in enumerate(names):
                for v in between([(r[k], k > 3 or (k < 2 and len(w) == 2)) for w, r in rows]):
                    for more in (dict(), dict(remove_subwords=True)):
                        kw = dict(more, **{name: v})
                        e = WordExtractor(**base, **kw)
                        e.train(sents)
                        rec.state((tuple(case), maxl, minf, name, v, bool(more)))
                        check_extract(e, m, kw, 'extraction from %r, limits (%d, %d, %d), %r' % (sents, maxl, maxr, minf, kw), rec)
            for rate in (0.25, 0.5, 0.75, 0.98, 1.0):
                for coh in (0.0, 0.05, 0.55):
                    kw = dict(remove_subwords=True, max_droprate_leftside_frequency=rate, min_cohesion_forward=coh)
                    e = WordExtractor(**base, **kw)
                    e.train(sents)
                    what = 'extraction from %r, limits (%d, %d, %d), %r' % (sents, maxl, maxr, minf, kw)
                    check_extract(e, m, kw, what, rec)
                    table = e.word_scores()
                    before = dict(table)
                    if table:
                        check_extract(e, m, kw, what + ' with given scores', rec, table)
                        rec.check(table == before, what + ': the given scores were changed')
            kw = {}
            e = WordExtractor(sents, **base)
            check_extract(e, m, kw, 'extraction from %r given to the constructor' % (sents,), rec)
            e.min_frequency = minf + 2
            m.minf = minf + 2
            check_extract(e, m, kw, 'extraction from %r after raising the minimum frequency' % (sents,), rec)
            if len(case) <= 2:
                m.minf = minf
                settings(base, sents, m, rec)
        rec.trace()
        rec.sample(sents)

    corpora = [['ab ab', 'abc ab a'], ['ba b', 'aab aab aa', 'ab'], ['abab c', 'b ab']]
    configs = [dict(min_frequency=2, verbose_points=0), dict(max_left_length=2, max_right_length=1, min_frequency=1, verbose_points=0, min_cohesion_forward=0.4, remove_subwords=True),
               dict(min_frequency=3, verbose_points=0, min_left_accessor_variety=1, min_right_branching_entropy=0.1, min_cohesion_backward=0.3, max_droprate_leftside_frequency=0.5)]
    menu = [['train', 0, True], ['train', 1, True], ['train', 2, True], ['train', 0, False], ['train', 1, False], ['save'], ['load'], ['new', 1], ['new', 2]]

    def run_ops(case, rec):
        base, ops = case
        cur = dict(configs[base])
        e = WordExtractor(**cur)
        m = Model(cur.get('max_left_length', 10), cur.get('max_right_length', 6), cur['min_frequency'])
        m.index()
        saved = None
        with tempfile.TemporaryDirectory() as tmp:
            path = os.path.join(tmp, 'words.pkl')
            for step, i in enumerate(ops):
                op = menu[i]
                if op[0] == 'train':
                    e.train(corpora[op[1]], cumulate=op[2]) if not op[2] else e.train(corpora[op[1]])
                    m.train(corpora[op[1]], op[2])
                elif op[0] == 'save':
                    e.save(path)
                    saved = (dict(cur), dict(m.L), dict(m.R), dict(m.A), dict(m.B))
                elif op[0] == 'load':
                    if saved is None:
                        continue
                    e.load(path)
                    cur = dict(saved[0])
                    m = Model(cur.get('max_left_length', 10), cur.get('max_right_length', 6), cur['min_frequency'])
                    for a, d in zip('LRAB', saved[1:]):
                        getattr(m, a).update(d)
                    m.index()
                else:
                    cur = dict(configs[op[1]])
                    e = WordExtractor(**cur)
                    m = Model(cur.get('max_left_length', 10), cur.get('max_right_length', 6), cur['min_frequency'])
                    m.index()
                what = 'extractor %d after %r' % (base, [menu[j] for j in ops[:step + 1]])
                compare_bulk(e, m, what, rec)
                if step == len(ops) - 1:
                    compare_queries(e, m, ['a', 'ab', 'abc', 'b', 'aab', 'c', 'ba'], what, rec)
                check_extract(e, m, {k: v for k, v in cur.items() if k not in ('min_frequency', 'verbose_points', 'max_left_length', 'max_right_length')}, what + ': extraction', rec)
                rec.equal((e.max_left_length, e.max_right_length, e.min_frequency), (m.maxl, m.maxr, m.minf), what + ': limits')
                rec.state((tuple(sorted(cur.items())), tuple(sorted(m.L.items())), tuple(sorted(m.R.items())), saved is None))
        rec.trace()
        rec.sample([menu[j] for j in ops])

    depth = 5 if deep else 4

    def expand(root):
        for rest in itertools.product(range(len(menu)), repeat=depth - len(root[1])):
            yield [root[0], root[1] + list(rest)]

    def run_prune(case, rec):
        text = case
        sents = [text[:3], text[3:], 'ab ab aab', text]
        for minf in (1, 2, 3):
            exact = Model(10, 6, 0)
            exact.train(sents)
            for k in (0, 1, 2, 3, 10):
                e = WordExtractor(min_frequency=minf, verbose_points=0)
                e.train(sents, num_for_pruning=k)
                what = 'minimum %d, training on %r with pruning every %d' % (minf, sents, k)
                words = e.words()
                for w in set(exact.words()) | set(words):
                    got, want = e.frequency(w), exact.freq(w)
                    rec.step()
                    for g, x in zip(got, want):
                        if k == 0 or minf == 1:
                            rec.check(g == (x if x >= minf else 0), '%s: frequency of %r is %r, exact %r' % (what, w, got, want))
                        else:
                            rec.check(g == 0 or minf <= g <= x, '%s: frequency of %r is %r, exact %r' % (what, w, got, want))
                    c = e.cohesion_score(w)
                    rec.check(all(0 <= x <= 1 + 1e-12 for x in c), '%s: cohesion of %r is %r' % (what, w, c))
                rec.check(set(e.word_scores()) == set(words), what + ': score table lists other words')
                rec.state((text, minf, k))
        rec.trace()
        rec.outcome('ok')

    def run_scale(case, rec):
        n, alpha, k, verbose = case
        seq = ''.join(gen.debruijn(alpha, k))
        sents = []
        for i in range(n):
            b = (i * 7) % (len(seq) - 20)
            sents.append(' '.join(seq[b + j:b + j + 1 + gen.mix(i * 5 + j) % 9] for j in range(gen.mix(i) % 7)))
        sents += ['뉴스. 뉴스를 (뉴스) 뉴스기사 \u200b. 뉴스', 'x' * 40 + ' ' + alpha * 30] * 6
        odd = dict(min_cohesion_forward=0.1123456, min_cohesion_backward=0.0523456, max_droprate_leftside_frequency=0.6323456, min_left_branching_entropy=0.1323456, min_right_branching_entropy=0.1423456,
                   min_left_accessor_variety=2, min_right_accessor_variety=3, remove_subwords=True)
        for base in (dict(), dict(min_frequency=30, max_left_length=4, max_right_length=3)):
            m = Model(base.get('max_left_length', 10), base.get('max_right_length', 6), base.get('min_frequency', 5))
            m.train(sents)
            for kw in [{}, odd, dict(remove_subwords=True)] + [{x: v * 3} for x, v in odd.items() if x in names]:
                e = WordExtractor(verbose_points=verbose, **base, **kw)
                e.train(sents)
                what = 'extraction from %d sentences, %r, %r' % (len(sents), base, kw)
                check_extract(e, m, kw, what, rec)
                if kw is odd:
                    with tempfile.TemporaryDirectory() as tmp:
                        e.save(os.path.join(tmp, 'w'))
                        d = WordExtractor()
                        d.load(os.path.join(tmp, 'w'))
                    check_extract(d, m, kw, what + ', saved and loaded', rec)
                    e.train(sents[::3])
                    m2 = Model(m.maxl, m.maxr, m.minf)
                    m2.train(sents)
                    m2.train(sents[::3])
                    check_extract(e, m2, kw, what + ', trained on more', rec)
                rec.state((n, alpha, k, str(base), str(kw)))
        rec.trace()

    return [
        Harness('scale', run_scale, [[n, a, k, v] for n, a, k, v in ((300, 'abc', 4, 0), (300, 'abcd', 5, 7), (4200, 'abcd', 5, 0), (9000 if deep else 5100, 'ab가', 6, 2000))], chunk=1, about='thousands of sentences, all thresholds at once and one by one, save and load, further training', bound='9000 sentences' if deep else '5100 sentences'),
        Harness('thresholds', run, [list(t) for t in gen.tuples_upto(range(len(SENTS)), n, lo=1)], chunk=4, about='all corpora over 7 sentences x all separating thresholds', bound='%d sentences' % n),
        Harness('histories', run_ops, [[b, list(t)] for b in range(3) for t in itertools.product(range(len(menu)), repeat=2)], expand=expand, chunk=2, about='all operation sequences over 9 operations from 3 configurations', bound='depth %d' % depth),
        Harness('pruning', run_prune, list(gen.words_upto('ab ', 7 if deep else 6, lo=4)), chunk=32, about='all texts x pruning intervals', bound='length <= %d' % (7 if deep else 6)),
    ]
