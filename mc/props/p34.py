"""P34: domain-specific positive features of the noun extractor."""
import itertools
import math
import os
import shutil
import tempfile

from mc import gen
from mc.core import Harness
from mc.props.p25 import ALL, Ref

PROP = dict(
    id='P34',
    title='Domain features are exactly the R parts the thresholds and nouns justify',
    statement=(
        'For every L-R graph, noun scores, known features and thresholds, extract_domain_pos_features looks at the R parts of the nouns (score and frequency reach their minimum) that are neither known, ignored nor nouns and that follow nouns often enough, from short to long. '
        'Over the L parts of two or more characters that precede such an R part: it is rejected if their last characters are too few or of too low entropy; a noun L counts positive, but L parts that with a beginning of R make a longer noun count negative, and all L parts do when R is a noun followed by a known or already found feature; with (pos-neg)/(pos+neg) as score, and pos as frequency if that reaches the minimum and neg+unknown otherwise, R is a feature if score, frequency and the entropy of the nouns before it all reach their minimum. '
        'The known features are not in the result, and the graph is unchanged. LRNounExtractor_v2 judges words by the known and the found features from then on, with extract_pos_feature already within the same extract(), where the words to judge are those before the features known at its start.'),
    quantifier=dict(over=['inputs', 'configurations', 'histories'], text='all L-R graphs, noun score tables, feature sets, ignore sets and thresholds'),
    why_tests_cant='No test extracts domain features; the ordering of candidates and the interplay of eight thresholds need every combination near the borders.',
    anchors=dict(files=['soynlp/noun/_josa.py', 'soynlp/noun/_noun_ver2.py'],
                 mechanism=[dict(name='extract_domain_pos_features / predict', where='soynlp/noun/_josa.py')],
                 state=[dict(name='domain_pos_features', meaning='features found so far, used for longer ones', where='soynlp/noun/_josa.py')],
                 observe_at=['extract_domain_pos_features', 'LRNounExtractor_v2.extract_domain_pos_features', 'LRNounExtractor_v2.extract', 'predict'], hook_needed=None))

CHECK = dict(
    technique='bounded-exhaustive enumeration of L-R graphs x noun tables x thresholds on the real extraction against a set-level reference; histories extract features / predict / extract nouns on the real noun extractor',
    level_note='All count matrices over fixed L and R universes in which every rule decides some R part, with each threshold moved across each value it is compared with.',
    assumptions=['R parts that can be read as noun + feature in one way and not in another are not judged', 'features that are also negative features of the noun extractor are not judged in extract()'])

EPS = 1e-9


class Unspecified(Exception):
    pass


def entropy(counts):
    n = sum(counts)
    return -sum(c / n * math.log(c / n) for c in counts)


def above(x, th, ths):
    """x >= th, but not closer to a border than rounding."""
    if isinstance(x, float) and abs(x - th) < EPS and x != th:
        raise Unspecified()
    return x >= th


def reference(pred, counts, known, ignore, t):
    """counts: {(l, r): c}; pred: {word: (frequency, score)}"""
    nouns = {w for w, (f, s) in pred.items() if s >= t['min_noun_score'] and f >= t['min_noun_frequency']}
    cand = {}
    for (l, r), c in counts.items():
        if l in nouns and r not in known and r not in ignore:
            cand[r] = cand.get(r, 0) + c
    found = {}
    for r in sorted(cand, key=len):
        if cand[r] < t['min_pos_feature_frequency'] or r in nouns:
            continue
        fs = {l: c for (l, r_), c in counts.items() if r_ == r and len(l) > 1} if r else {}
        last = {}
        for l, c in fs.items():
            last[l[-1]] = last.get(l[-1], 0) + c
        if len(last) < t['min_num_of_unique_lastchar'] or not fs or not above(entropy(last.values()), t['min_entropy_of_lastchar'], t):
            continue
        splits = {r[i:] in known or r[i:] in found for i in range(1, len(r)) if r[:i] in nouns}
        later = {r[j:] in known or r[j:] in found for i in range(1, len(r)) if r[:i] in nouns for j in range(i, len(r))}
        if len(splits | later) > 1:
            raise Unspecified()
        pos = neg = unk = 0
        for l, c in fs.items():
            if True in splits or any(l + r[:i] in nouns for i in range(1, len(r) + 1)):
                neg += c
            elif l in nouns:
                pos += c
            else:
                unk += c
        score = (pos - neg) / (pos + neg) if pos + neg else 0
        freq = pos if score >= t['min_pos_score'] else neg + unk
        if freq < t['min_pos_feature_frequency']:
            score = 0
        before = [c for l, c in fs.items() if l in nouns]
        if score >= t['min_pos_score'] and freq >= t['min_pos_feature_frequency'] and above(entropy(before) if before else 0, t['min_noun_entropy'], t):
            found[r] = (score, freq)
    return found


DEFAULT = dict(min_noun_score=0.3, min_noun_frequency=100, min_pos_score=0.3, min_pos_feature_frequency=1000,
               min_num_of_unique_lastchar=4, min_entropy_of_lastchar=0.5, min_noun_entropy=1.5)
SMALL = dict(min_noun_score=0.5, min_noun_frequency=2, min_pos_score=0.25, min_pos_feature_frequency=2,
             min_num_of_unique_lastchar=2, min_entropy_of_lastchar=0.25, min_noun_entropy=0.25)


def harnesses(tier):
    from soynlp.noun import LRNounExtractor_v2, extract_domain_pos_features
    from soynlp.utils import EojeolCounter, LRGraph
    deep = tier == 'thorough'

    def graph(counts):
        lr = {}
        for (l, r), c in counts.items():
            if c:
                lr.setdefault(l, {})[r] = c
        return LRGraph(lrgraph=lr)

    def judge(pred, counts, known, ignore, t, rec, g=None, kw=None):
        counts = {k: c for k, c in counts.items() if c}
        try:
            want = reference(pred, counts, known, ignore or {}, t)
        except Unspecified:
            rec.outcome('unspecified')
            return None
        if not counts:
            return None
        g = g or graph(counts)
        got = extract_domain_pos_features(dict(pred), g, set(known), ignore, **(t if kw is None else kw))
        rec.step()
        what = 'features of %r with nouns %r, known %r, ignored %r, %r' % (counts, pred, sorted(known), ignore, t)
        rec.check(set(got) == set(want), '%s: %r, reference %r', what, got, want)
        for r in want:
            rec.check(abs(got[r][0] - want[r][0]) < EPS and got[r][1] == want[r][1], '%s: %r has %r, reference %r', what, r, got[r], want[r])
        rec.outcome(tuple(sorted(want)))
        return want

    Ls = ['가나', '다라', '마나', '나']
    Rs = ['은', '나은', '에']
    good, low, rare = (2, 0.5), (9, 0.25), (1, 1.0)
    tables = [dict(zip(('가나', '다라', '마나', '나'), v)) for v in itertools.product((good, low), (good, rare), (good, None), (None, good))]
    tables = [{w: s for w, s in t.items() if s} for t in tables]
    tables += [dict(t, **x) for t in tables[:4] for x in ({'가나은': good}, {'은': good}, {'다라나': good}, {'마나에': good, '나은': low})]

    def run_graphs(case, rec):
        # all count matrices of 4 L parts x 3 R parts, all noun tables
        for rest in itertools.product((0, 3) if not deep else (0, 1, 3), repeat=12 - len(case)):
            m = list(case) + list(rest)
            counts = {(l, r): c for (l, r), c in zip(itertools.product(Ls, Rs), m)}
            g = None
            h = gen.mix(sum(c * 5 ** i for i, c in enumerate(m)))
            for i, pred in enumerate(tables):
                if not deep and (h + i) % 4:
                    continue
                known = ({'은'}, set(), {'나'}, {'은', '에'})[(h >> 8) % 4]
                t = dict(SMALL, **({}, dict(min_num_of_unique_lastchar=1, min_entropy_of_lastchar=0), dict(min_noun_entropy=0), dict(min_pos_score=0, min_pos_feature_frequency=4))[(h >> 11) % 4])
                g = g or (graph(counts) if any(m) else None)
                rec.state((tuple(m), i))
                judge(pred, counts, known, None, t, rec, g)
        rec.trace()

    # one R part per rule; every threshold is moved over every value it is compared with
    BASE = {('가나', '은'): 4, ('다라', '은'): 4, ('마바', '은'): 8, ('사', '은'): 100,
            ('가나', '에'): 6, ('다라', '에'): 2, ('자차', '에'): 1, ('바차', '에'): 3,
            ('가나', '나은'): 2, ('자차', '나은'): 5, ('다라', '나은'): 2,
            ('다라', '나에'): 8, ('마바', '나에'): 8,
            ('가나', '물'): 3, ('마바', '물'): 5, ('자가', '물'): 3,
            ('가나', ''): 50, ('자차', ''): 70}
    VALUES = dict(min_noun_score=[0, 0.25, 0.375, 0.5, 0.75, 1, 2], min_noun_frequency=[0, 1, 2, 3, 5, 8, 9, 100],
                  min_pos_score=[-2, -1, -0.5, 0, 0.125, 0.25, 0.5, 0.75, 1, 2], min_pos_feature_frequency=[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 200],
                  min_num_of_unique_lastchar=[0, 1, 2, 3, 4, 5], min_entropy_of_lastchar=[0, 0.3, 0.5, 0.6, 0.7, 0.9, 1.0, 1.1, 2], min_noun_entropy=[0, 0.3, 0.5, 0.6, 0.7, 0.9, 1.0, 1.1, 2])
    PREDS = [{'가나': (8, 0.5), '다라': (5, 0.75), '마바': (9, 0.25), '나': (3, 1.0)},
             {'가나': (8, 0.5), '다라': (5, 0.75), '마바': (9, 0.5), '자차나': (3, 0.5), '물': (2, 0.5)},
             {'가나': (1, 1.0), '다라': (2, 1.0), '마바': (3, 1.0), '자차': (9, 0.375), '바차에': (9, 1.0)},
             {'가나': (9, 1), '다라': (9, 1), '마바': (9, 1), '사': (9, 1), '자차': (9, 1), '자가': (9, 1), '바차': (9, 1)}]

    def run_thresholds(case, rec):
        name, pi, variant = case
        counts = dict(BASE)
        if variant:
            for i, k in enumerate(sorted(counts)):
                counts[k] = gen.mix(i * 17 + variant) % 7
        for known in (set(), {'은'}, {'에'}, {'은', '에', '도'}):
            for ignore in (None, {'나은'}, {'은': 1, '물': 2}):
                for v in VALUES[name]:
                    for other, w in [(None, None)] + [(o, w) for o in VALUES if o != name for w in VALUES[o][1::1 if deep else 2]]:
                        t = dict(SMALL)
                        t[name] = v
                        if other:
                            t[other] = w
                        rec.state((name, pi, variant, tuple(sorted(known)), str(ignore), v, other, w))
                        judge(PREDS[pi], counts, known, ignore, t, rec)
        rec.trace()
        rec.sample(case)

    def run_default(case, rec):
        # default thresholds: counts around 1000, frequencies around 100
        a, b, c, f = case
        ls = ['가나', '다라', '마바', '사아', '자차', '카나']
        pred = {l: (f + i, 0.3 + 0.1 * i) for i, l in enumerate(ls[:-1])}
        counts = {}
        for i, l in enumerate(ls):
            counts[l, '까지'] = a + i * b
            counts[l, '는'] = c if i % 3 else 1
            counts[l, '까지도'] = 400 * (i % 3)
        for known in (set(), {'도'}, {'까지'}):
            for kw in ({}, dict(min_pos_feature_frequency=a * 3), dict(min_noun_entropy=1.0)):
                rec.state((a, b, c, f, tuple(known), str(kw)))
                judge(pred, counts, known, None, dict(DEFAULT, **kw), rec, kw=kw)
                g = graph(counts)
                ends = sorted({r for _, r in counts} - {''})
                look = lambda: ([dict(g.get_r(l, -1)) for l in sorted({l for l, _ in counts})], [dict(g.get_l(r, -1)) for r in ends])
                before = look()
                rec.own(lambda: extract_domain_pos_features(pred, g, known, **kw), 'features of %r' % (case,))
                rec.check(look() == before, 'extraction from %r changed the graph', case)
        rec.trace()

    # ---- through the noun extractor -----------------------------------------------------------
    class RefD(Ref):
        first = None

        def candidates(self):
            if self.first is not None:
                c, self.first = self.first, None
                return c
            return Ref.candidates(self)

    STEMS = ['가나', '다라', '마바', '사아']
    TAILS = ['은', '에', '까지', '']
    KW = dict(min_noun_score=0.3, min_noun_frequency=2, min_pos_score=0.25, min_pos_feature_frequency=3,
              min_num_of_unique_lastchar=2, min_entropy_of_lastchar=0.3, min_noun_entropy=0.6)
    cache = {}

    def extractor(neg, **kw):
        d = tempfile.mkdtemp()
        try:
            for name, fs in (('pos', ['은', '에']), ('neg', sorted(neg | {'에'}))):
                with open('%s/m_%s' % (d, name), 'w', encoding='utf8') as f:
                    f.write(''.join(x + '\n' for x in fs))
            return LRNounExtractor_v2(verbose=False, predictor_headers='%s/m' % d, **kw)
        finally:
            shutil.rmtree(d)

    def domain(ref, t, ignore=()):
        pred = {}
        for w in sorted(ref.candidates(), key=lambda w: -len(w)):
            pred[w] = ref.predict(w, t['min_noun_score'])
            if pred[w][1] >= t['min_noun_score']:
                ref.remove(w)
        ref.left = dict(ref.counts)
        return reference(pred, ref.pairs(ref.counts), ref.pos, ignore, t)

    def run_extractor(case, rec):
        for rest in itertools.product((0, 2, 5) if deep else (0, 3), repeat=16 - len(case)):
            m = list(case) + list(rest)
            words = [a + b for a, b in itertools.product(STEMS, TAILS)]
            counts = {w: c for w, c in zip(words, m) if c}
            if not counts:
                continue
            h = gen.mix(sum(c * 7 ** i for i, c in enumerate(m)))
            if not deep and h % 8:
                continue
            neg = ({'다'}, {'다', '까지'})[(h >> 19) % 2]
            if '까지' in neg:
                counts = {w: c * 3 if w.endswith('은') else c for w, c in counts.items()}
            mk = lambda: Ref({'은', '에'}, neg | {'에'}, counts, 10, 9, 1, 30)
            t = dict(KW, **({}, dict(min_num_of_unique_lastchar=4), dict(min_noun_entropy=1.2), dict(min_noun_frequency=4), dict(min_pos_score=1), dict(min_pos_feature_frequency=9), dict(min_pos_score=1))[(h >> 5) % 7])
            ignore = (None, {'까지'}, {'지'})[(h >> 9) % 3]
            append = (h >> 13) % 4 != 0
            try:
                found = domain(mk(), t, ignore or ())
            except Unspecified:
                continue
            rec.state(tuple(m))
            what = 'counts %r, %r, ignored %r' % (counts, t, ignore)
            ex = extractor(neg)
            sents = [' '.join([w] * c) for w, c in counts.items()]
            ex.train(sents if (h >> 17) % 2 else EojeolCounter(sents))
            ex.extract_domain_pos_features(ignore_features=ignore, append_extracted_features=append, **t)
            ref, ref2 = mk(), mk()
            if append and any(r in ref.common for r in found):
                rec.outcome('already common')
                continue
            if append:
                # a found feature that is also negative is common from now on; whether it is still listed
                # as negative is not specified: only what does not depend on it is checked
                for r in (ref, ref2):
                    r.pos |= set(found) - r.neg
                    r.common = r.common | set(found) & r.neg
                ref2.neg = ref2.neg - set(found)
            for w in sorted({e[:i] for e in counts for i in range(1, len(e) + 1)}):
                got, want = ex.predict(w), ref.predict(w, 0.3)
                rec.step()
                if want != ref2.predict(w, 0.3):
                    continue
                rec.check(got[0] == want[0] and abs(got[1] - want[1]) < EPS, 'after extracting features from %s (append=%r), predict(%r) is %r, reference %r (found %r)', what, append, w, got, want, sorted(found))
            got = ex.extract(0.3, 1)
            want = ref.extract(0.3, 1, True, ALL, set(), set())
            if want != ref2.extract(0.3, 1, True, ALL, set(), set()):
                rec.outcome('depends')
                continue
            rec.check(set(got) == set(want) and all(got[w][0] == want[w][0] and abs(got[w][1] - want[w][1]) < EPS for w in want),
                      'after extracting features from %s (append=%r), extract() is %r, reference %r (found %r)', what, append, got, want, sorted(found))
            rec.outcome((tuple(sorted(found)), append, len(neg)))
        rec.trace()

    def run_option(case, rec):
        # extract_pos_feature=True with the default thresholds: counts of hundreds
        a, b, c = case
        counts = {}
        last = '가나다라마바사아'
        for i, ch in enumerate(last):
            w = '물' + ch
            counts[w + '은'] = 60 + i
            counts[w] = 45
            counts[w + '에서'] = a if i < 6 else 5
            counts[w + '까지'] = b * (i % 4 + 1)
            counts[w + '에'] = c
        counts['불타에서'] = 40
        counts['불타까지'] = 31
        for pos_feature in (True, False):
            ref = RefD({'은', '에'}, {'다'}, counts, 10, 9, 1, 30)
            found = domain(RefD({'은', '에'}, {'다'}, counts, 10, 9, 1, 30), dict(DEFAULT)) if pos_feature else {}
            ref.first = ref.candidates()
            ref.pos |= set(found)
            want = ref.extract(0.3, 1, True, ALL, set(), set())
            key = pos_feature
            d = tempfile.mkdtemp()
            try:
                for name, fs in (('pos', ['은', '에']), ('neg', ['다'])):
                    with open('%s/m_%s' % (d, name), 'w', encoding='utf8') as f:
                        f.write(''.join(x + '\n' for x in fs))
                ex = LRNounExtractor_v2(verbose=False, predictor_headers='%s/m' % d, extract_pos_feature=pos_feature)
            finally:
                shutil.rmtree(d)
            ex.train([' '.join([w] * n) for w, n in counts.items() if n])
            got = ex.extract()
            rec.state((a, b, c, pos_feature))
            rec.step()
            rec.check({w: s[0] for w, s in got.items()} == {w: s[0] for w, s in want.items()} and all(abs(got[w][1] - want[w][1]) < EPS for w in want),
                      'extract_pos_feature=%r, counts %r: nouns %r, reference %r (found %r)', pos_feature, counts, got, want, found)
            rec.outcome(tuple(sorted(found)))
        rec.trace()

    # -- many L parts, many and long R parts, counts over six orders of magnitude
    def run_scale(case, rec):
        kind, variant = case
        syl = [chr(ord('가') + 28 * i) for i in range(45)]
        rs = ['은', '까지', '까지도', '에', '에서', '가나', '나은', '다가는', '라', '라까지']
        if kind == 'many L':
            ls = [a + b for a in syl[:40] for b in syl[:35 - 5 * (variant % 3)]]
            counts = {(l, r): (i * (j + 3) + variant) % 11 for i, l in enumerate(ls) for j, r in enumerate(rs) if (i + j * 7) % 3}
            pred = {l: ((i * 7 + variant) % 150, (i % 13) / 8 - 0.5) for i, l in enumerate(ls) if i % 5 != variant % 5}
            for l in ls[:3]:
                pred[l + '까'] = (500, 0.75)
            pred['다'] = (200, 1.0)
            for known in ({'은'}, {'은', '에', '가는'}):
                for t in (DEFAULT, dict(DEFAULT, min_noun_entropy=6.0), dict(DEFAULT, min_noun_score=0.125, min_noun_frequency=20, min_num_of_unique_lastchar=25), dict(SMALL, min_pos_score=0.01)):
                    rec.state((kind, variant, tuple(sorted(known)), str(t)))
                    judge(pred, counts, known, None, t, rec)
        elif kind == 'many R':
            ls = ['가나', '다라', '마바', '사아', '자차', '나']
            many = [a + b for a in syl for b in syl][:900] + [a * 3 + b for a in syl for b in syl[:3]]
            counts = {(l, r): (i * 5 + j * (1 + variant)) % 9 for i, l in enumerate(ls) for j, r in enumerate(many)}
            pred = {l: (9, 0.5 + i / 16) for i, l in enumerate(ls[:4])}
            pred.update({many[k]: (4, 0.75) for k in (7, 70, 300)})
            for known in (set(many[:40]), {m[-1] for m in many[:9]}):
                for t in (SMALL, dict(SMALL, min_pos_feature_frequency=20), dict(SMALL, min_noun_entropy=1.0)):
                    rec.state((kind, variant, len(known), str(t)))
                    judge(pred, counts, known, set(many[100:150]) if variant % 2 else None, t, rec)
        elif kind == 'long R':
            ls = ['가나', '다라', '마바사아자차', '카타' * 6]
            base = '까지만에서부터도라고하는것'
            long = [base[:k] for k in range(1, len(base) + 1)] + [base * 2, base + '은', base * 3 + '은']
            counts = {(l, r): (i * 3 + j * (2 + variant)) % 7 + 1 for i, l in enumerate(ls) for j, r in enumerate(long)}
            pred = {l: (9, 0.5) for l in ls[:3 + variant % 2]}
            for known in ({'은'}, {base[:2]}, {base[1:]}):
                for extra in ({}, {base: (5, 0.5)}, {ls[0] + base[:9]: (5, 0.5)}):
                    rec.state((kind, variant, tuple(known), str(extra)))
                    judge(dict(pred, **extra), counts, known, None, SMALL, rec)
        else:
            for v in itertools.product((1, 1000, 10 ** 6), repeat=5):
                counts = {('가나', '은'): v[0], ('다라', '은'): v[1], ('마나', '은'): v[2], ('사', '은'): 10 ** 6, ('가나', '에'): v[3], ('다라', '에'): v[4], ('마나', '에'): 3}
                pred = {'가나': (v[0], 0.5), '다라': (v[1], 0.75), '마나': (9, 0.25)}
                rec.state((variant, v))
                judge(pred, counts, {'도'}, None, dict(DEFAULT, min_num_of_unique_lastchar=1, min_entropy_of_lastchar=0, min_noun_entropy=(0, 0.1, 0.01)[variant % 3]), rec)
        rec.trace()

    heads = [list(t) for t in itertools.product((0, 3) if not deep else (0, 1, 3), repeat=4 if not deep else 5)]
    heads16 = [list(t) for t in itertools.product((0, 2, 5) if deep else (0, 3), repeat=5 if not deep else 9)]
    if deep:
        heads16 = [h for h in heads16 if len(set(h[1:])) > 1 and gen.mix(sum(c * 7 ** i for i, c in enumerate(h))) % 160 == 0]
    return [
        Harness('scale', run_scale, [[k, v] for k in ('many L', 'many R', 'long R', 'counts') for v in range(4 if not deep else 16)], about='up to 1,400 L parts, 1,035 R parts, R parts of up to 40 characters, counts of up to a million', bound='16 large graphs x thresholds and known sets, 3^5 count vectors'),
        Harness('graphs', run_graphs, heads, chunk=1, about='4 L parts x 3 R parts, all count matrices with noun tables, known sets and thresholds', bound='12 cells of {0,3} (thorough {0,1,3}), 32 noun tables'),
        Harness('thresholds', run_thresholds, [[n, p, v] for n in VALUES for p in range(4) for v in range(4 if not deep else 12)], chunk=1, about='each pair of thresholds over the values they are compared with', bound='7 thresholds, all pairs, 4 noun tables, 4 known sets, 3 ignore sets'),
        Harness('default', run_default, [[a, b, c, f] for a in (10, 199, 200, 333, 500) for b in (0, 1, 50) for c in (0, 150, 260, 999) for f in (95, 99, 100)], chunk=4, about='default thresholds; repeated calls and graph unchanged', bound='counts around 1000'),
        Harness('extractor', run_extractor, heads16, chunk=1, about='histories train / extract features / predict / extract nouns on LRNounExtractor_v2', bound='16 eojeol counts, thresholds, ignore sets, append or not'),
        Harness('option', run_option, [[a, b, c] for a in (0, 100, 166, 167, 200, 1000) for b in (0, 31, 60, 90) for c in (0, 3, 60)], chunk=1, about='extract_pos_feature within extract()', bound='default thresholds, counts around them'),
    ]
