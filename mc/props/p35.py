"""P35: EomiExtractor."""
import itertools

import shutil
import tempfile

from mc import conj, gen
from mc.core import Harness
from mc.props.p14 import compare_graph

PROP = dict(
    id='P35',
    title='The ending extractor scores and lemmatizes R parts exactly',
    statement=(
        'For all stems, nouns and L-R graphs of Hangul eojeols, the ending extractor scores each R part that follows a surface form of a stem, from long to short, by (pos-neg)/(pos+neg) over the counts of its L parts, where L+R that are nouns and L parts that some beginning of R extends to a stem surface do not count, L parts that are a stem surface or a one-syllable noun plus a stem surface are positive, other L parts that end in a stem surface are unknown and the rest negative; it needs min_num_of_features such stem surfaces or scores 0. '
        'The eojeols of an R part that reaches the minimum score and of a positive L part are not counted for shorter R parts. Each accepted R part is lemmatized with all its L parts in the whole graph; a lemma ending of known stems gets the sum of these counts as frequency and the count-weighted mean score, and is returned if both reach the minimum. The graph is afterwards as it was. '
        'Inside the predicator extractor, eojeols of one character and those that begin with a noun of two or more characters, or are one, do not count.'),
    quantifier=dict(over=['inputs', 'configurations'], text='all graphs, stems, nouns and thresholds'),
    why_tests_cant='No test calls the ending extractor at all.',
    anchors=dict(files=['soynlp/predicator/_eomi.py', 'soynlp/predicator/_predicator.py'],
                 mechanism=[dict(name='EomiExtractor.extract / predict / _eomi_lemmatize', where='soynlp/predicator/_eomi.py')],
                 state=[dict(name='L-R graph', meaning='eojeols not yet explained by an ending', where='soynlp/utils/utils.py')],
                 observe_at=['EomiExtractor.extract', 'PredicatorExtractor.train with extract_eomi'], hook_needed=None))

CHECK = dict(
    technique='bounded-exhaustive enumeration of eojeol counts x stems x nouns x thresholds on the real extractor against an independent reference',
    level_note='All count vectors over fixed eojeol universes whose L and R parts nest, all subsets of a stem and a noun menu, and all small thresholds; the lemma candidates of one cut are taken from the code and bound by P22 and P23.',
    assumptions=['all eojeols are complete Hangul', 'minimum scores are positive'])


def reference(counts, stems, nouns, min_features, min_score, min_freq, lemma_candidate):
    surfaces = {x for s in stems for x in conj.stem_surfaces(s)}
    left = {e: c for e, c in counts.items() if c > 0}
    ends = {}
    for e in left:
        for i in range(1, len(e)):
            ends.setdefault(e[i:], []).append(e)
    ls = lambda r: {e[:-len(r)]: left[e] for e in ends.get(r, ()) if e in left}
    longer = lambda l, r: any(l + r[:i] in surfaces for i in range(1, len(r) + 1))
    positive = lambda l: l in surfaces or l[0] in nouns and l[1:] in surfaces
    accepted = {}
    cands = {e[i:] for e in left for i in range(1, len(e) + 1) if e[:i] in surfaces}
    for r in sorted(cands, key=lambda r: -len(r)):
        feats = ls(r)
        pos = neg = unk = n = 0
        for l, c in feats.items():
            if l in surfaces and not longer(l, r):
                n += 1
            if l + r in nouns or longer(l, r):
                continue
            if positive(l):
                pos += c
            elif any(l[-i:] in surfaces for i in range(1, len(l))):
                unk += c
            else:
                neg += c
        score = (pos - neg) / (pos + neg) if pos + neg and n >= min_features else 0
        if score >= min_score:
            accepted[r] = score
            for l in feats:
                if positive(l):
                    del left[l + r]
    left = {e: c for e, c in counts.items() if c > 0}
    sums = {}
    for r, score in accepted.items():
        for l, c in ls(r).items():
            for stem, eomi in lemma_candidate(l, r):
                if stem in stems:
                    f, t = sums.get(eomi, (0, 0.0))
                    sums[eomi] = (f + c, t + c * score)
    return {e: (f, t / f) for e, (f, t) in sums.items() if f >= min_freq and t / f >= min_score - 1e-12}


def harnesses(tier):
    from soynlp.predicator import EomiExtractor, PredicatorExtractor
    from soynlp.lemmatizer import lemma_candidate
    from soynlp.utils import EojeolCounter, LRGraph
    deep = tier == 'thorough'

    def same(got, want, what, rec):
        rec.step()
        ok = set(got) == set(want) and all(got[e][0] == want[e][0] and abs(got[e][1] - want[e][1]) < 1e-9 for e in want)
        rec.check(ok, 'endings of %s: implementation gives %r, reference gives %r', what, {e: tuple(s) for e, s in got.items()}, want)

    def one(counts, stems, nouns, mf, ms, mq, rec, full=True, big=False, **kw):
        if big:
            pairs = {}
            for w, c in counts.items():
                for i in range(1, len(w) + 1) if c else ():
                    pairs.setdefault(w[:i], {})[w[i:]] = c
            graph = LRGraph(pairs)
        else:
            words = [w for w, c in counts.items() for _ in range(c)] or ['']
            graph = EojeolCounter([' '.join(words)]).to_lrgraph()
        ex = EomiExtractor(graph, set(stems), set(nouns), min_num_of_features=mf, **dict(dict(verbose=False), **kw))
        want = reference(counts, stems, nouns, mf, ms, mq, lemma_candidate)
        what = 'counts=%r stems=%r nouns=%r min_features=%d min_score=%r min_frequency=%d' % (counts, sorted(stems), sorted(nouns), mf, ms, mq)
        same(ex.extract(min_eomi_score=ms, min_eomi_frequency=mq), want, what, rec)
        if full:
            pairs = {(w[:i], w[i:]): c for w, c in counts.items() if c for i in range(1, len(w) + 1)}
            compare_graph(graph, pairs, 'graph after ' + what, rec)
            same(ex.extract(min_eomi_score=ms, min_eomi_frequency=mq), want, 'the second extraction, ' + what, rec)
        rec.outcome(len(want))
        rec.trace()

    eoj = ['가고', '먹고', '먹고서', '가고서', '나무고', '책먹고', '큰가고', '하면', '공부하면', '먹으면', '가', '갔다']

    def run_counts(case, rec):
        first, mf, ms = case
        for rest in itertools.product([0, 1, 3] if deep else [0, 2], repeat=len(eoj) - len(first)):
            v = tuple(first) + rest
            rec.state((v, mf, ms))
            one(dict(zip(eoj, v)), {'가', '먹', '하'}, {'책', '공', '하면'}, mf, ms, 1, rec, full=sum(v) % 8 == 0)
        rec.sample(case)

    # stems of every length at the end of L parts of every length, R parts that begin with the rest of a stem
    def run_reach(case, rec):
        sl, pl = case
        stem, prefix = '가나다라마먹'[-sl:], '바사아자차카'[:pl]
        l = prefix + stem
        words = [l + '고', l + '지', prefix + stem[1:] + '고', '보고', '보지', '보' + stem[1:] + '고', stem + '고']
        for v in itertools.product((0, 1, 3), repeat=len(words)):
            if not deep and gen.mix(sum(c * 3 ** i for i, c in enumerate(v))) % 8:
                continue
            counts = {}
            for w, c in zip(words, v):
                if c:
                    counts[w] = counts.get(w, 0) + c
            for nouns in ((), (prefix[:1] or '책', l + '고'), (stem[:1], l)):
                rec.state((sl, pl, v, nouns))
                one(counts, {stem, '보'}, set(nouns), 1, 0.2, 1, rec, full=sum(v) % 8 == 0, big=True)

    # one ending arises from several R parts of different score
    blend = ['해서', '막아서', '나무서', '나무아서', '막았다', '했다', '나무다', '보았다', '그루아서']

    def run_blend(case, rec):
        first, mf, ms = case
        for rest in itertools.product((0, 1, 3) if deep else (0, 2), repeat=len(blend) - len(first)):
            v = tuple(first) + rest
            for mq in (1, 4):
                rec.state((v, mf, ms, mq))
                one(dict(zip(blend, v)), {'하', '막', '보'}, {'책'}, mf, ms, mq, rec, full=sum(v) % 8 == 0)

    stems = ['가', '먹', '하', '큰', '나', '이', '고', '모르', '나가고']
    base = {'가고': 2, '먹고': 1, '나가고': 1, '나무가고': 2, '몰라': 2, '몰라서': 1, '먹어서': 1, '갔다': 3, '나갔다': 1, '공부했다': 2, '했다': 1, '크가고': 1, '이다': 2, '책이다': 4, '모르고': 1, '먹으니': 2, '가니': 1, '하니': 1, '고고': 1, '하고': 5}
    menu = ['나', '나무', '책', '공', '가고', '이', '먹고', '공부']

    def run_stems(case, rec):
        nouns, mf = case
        for k in range(1, len(stems) + 1):
            for ss in itertools.combinations(stems, k):
                for ms, mq in ((0.3, 1), (0.5, 3)):
                    rec.state((tuple(nouns), mf, ss, ms, mq))
                    one(base, set(ss), set(nouns), mf, ms, mq, rec, full=gen.mix(k) % 3 == 0)
        rec.sample(case)

    def run_predicator(case, rec):
        # through the predicator extractor: noun-initial and one-syllable eojeols are left out, the endings join the dictionary
        nouns, mf = case
        for k in range(1, len(stems) + 1, 1 if deep else 2):
            for ss in itertools.combinations(stems, k):
                rec.state((tuple(nouns), mf, ss))
                known = {'고', '니'}
                words = [w for w, c in base.items() for _ in range(c)]
                px = PredicatorExtractor(set(nouns), josas={'은'}, adjectives=set(), verbs=set(ss), eomis=known, extract_eomi=True, verbose=False)
                drop = set()
                for s in ss:
                    if s[:-1] in nouns:
                        drop.add(s[:-1])
                    elif s[:-2] in nouns:
                        drop.add(s[:-2])
                ns = set(nouns) - drop
                use = {w: c for w, c in base.items() if len(w) > 1 and not any(w[:i] in ns for i in range(2, len(w) + 1))}
                eomis = {'고', '니'} | set(reference(use, set(ss), ns, mf, 0.3, 1, lemma_candidate))
                a, v = px.train_extract([' '.join(words)], min_eojeol_frequency=1, min_num_of_features=mf)
                # same dictionaries, given instead of extracted
                py = PredicatorExtractor(set(nouns), josas={'은'}, adjectives=set(), verbs=set(ss), eomis=eomis, verbose=False)
                a2, v2 = py.train_extract([' '.join(words)], min_eojeol_frequency=1)
                rec.equal(known, {'고', '니'}, 'the given endings after extraction')
                rec.equal({w: (p.frequency, set(p.lemma)) for w, p in v.items()}, {w: (p.frequency, set(p.lemma)) for w, p in v2.items()},
                          'verbs with extracted endings, stems=%r nouns=%r min_features=%d, against those with the endings %r given' % (ss, nouns, mf, sorted(eomis)))
                rec.trace()
        rec.sample(case)

    # inside the predicator extractor, eojeols that begin with or are a noun of two or more characters (of any length) do not count
    def run_inside(case, rec):
        n, r = case
        word = ('먹더라도우리나' * 2)[:n] + '고서도니'[:r]
        noun = word[:n]
        tails = sorted({noun[1:], word[1:], '더라'} - {''})
        for mask in itertools.product((0, 1), repeat=3):
            counts = {word: 3}
            for t in tails:
                counts.update({'잡' + t: 2} if mask[0] else {})
                counts.update({'받' + t: 1} if mask[1] else {})
                counts.update({'먹' + t: counts.get('먹' + t, 1)} if mask[2] else {})
            for nouns in ({noun}, {noun[:2], noun}, set(), {noun + '요', '책'}):
                for mf in (1, 2, 3):
                    rec.state((n, r, mask, tuple(sorted(nouns)), mf))
                    stems = {'먹', '잡', '받'}
                    # nouns that are a stem without its last characters: none here
                    use = {w: c for w, c in counts.items() if len(w) > 1 and not any(w[:i] in nouns for i in range(2, len(w) + 1))}
                    eomis = {'지'} | set(reference(use, stems, nouns, mf, 0.3, 1, lemma_candidate))
                    what = 'counts=%r nouns=%r min_features=%d' % (counts, sorted(nouns), mf)
                    text = [' '.join(w for w, c in counts.items() for _ in range(c))]
                    px = PredicatorExtractor(set(nouns), josas={'은'}, adjectives=set(), verbs=set(stems), eomis={'지'}, extract_eomi=True, verbose=False)
                    a, v = px.train_extract(text, min_eojeol_frequency=1, min_num_of_features=mf)
                    py = PredicatorExtractor(set(nouns), josas={'은'}, adjectives=set(), verbs=set(stems), eomis=eomis, verbose=False)
                    a2, v2 = py.train_extract(text, min_eojeol_frequency=1)
                    rec.equal({w: (p.frequency, set(p.lemma)) for w, p in v.items()}, {w: (p.frequency, set(p.lemma)) for w, p in v2.items()},
                              'verbs with extracted endings, %s, against those with the endings %r given' % (what, sorted(eomis)))
                    rec.outcome(len(v))
                    rec.trace()
        rec.sample(case)

    # -- thousands of eojeols, hundreds of stems, counts over six orders of magnitude, messages and logs on
    def run_scale(case, rec):
        kind, variant, logging = case
        d = tempfile.mkdtemp()
        try:
            kw = dict(verbose=True, logpath=d + '/log') if logging else {}
            syl = '가먹하보나막잡크찾들날걷돕흐모르'
            tails = ['고', '니', '다', '지', '고서', '지만', '는데', '아서', '어서', '았다', '면', '으면', '은', '라', '습니다', '게', '던', '더라', '려고', '네요']
            if kind == 'many':
                stems = {a + b for a in syl for b in syl[:9] if a != b} | set(syl[:8])
                counts = {}
                for i, s in enumerate(sorted(stems)):
                    for j, t in enumerate(tails):
                        c = (i * 7 + j * 11 + variant) % 5
                        if c:
                            counts[s + t] = c
                            if (i + j) % 9 == 0:
                                counts['책' + s + t] = c
                            if (i * j) % 7 == 1:
                                counts['물결' + t] = counts.get('물결' + t, 0) + variant + 1
                                counts['해' + s[-1] + t] = 2
                for nouns in ({'책'}, {'책', '물', sorted(stems)[3] + '고'}):
                    for mf, ms, mq in ((1, 0.3, 1), (40, 0.5, 60)):
                        rec.state((kind, variant, mf, len(nouns)))
                        one(counts, stems, nouns, mf, ms, mq, rec, full=False, big=True, **kw)
            elif kind == 'endings':
                # one stem before a thousand R parts
                more = [a + b for a in '고니다지면서요네까라게던도만은는을' for b in '가나다라마바사아자차카타파하거너더러머버서어저처커터퍼허고노도로모보소오조초코토포호구누두루무부수우주추쿠투푸후']
                counts = {'먹' + t: 1 + (i * 3 + variant) % 4 for i, t in enumerate(more)}
                counts.update({'잡' + t: 2 for t in more[::3]})
                counts.update({'누' + t: 1 + i % 9 for i, t in enumerate(more[::5])})
                for mf, ms, mq in ((1, 0.3, 1), (2, 0.3, 4)):
                    rec.state((kind, variant, mf))
                    one(counts, {'먹', '잡', '먹고'}, {'누', '먹' + more[7]}, mf, ms, mq, rec, full=False, big=True, **kw)
            elif kind == 'long':
                for n in range(2, 10):
                    stem, tail = ('먹히우리나가구도보' * 2)[:n], ('고서라도그리하여야만했다는데' * 2)[:n + variant]
                    counts = {stem + tail: 3, stem + '고': 2, '잡' + tail: 1, '책' * 3 + stem + tail: 2, '잡고': 1, '나무' + tail: 1 + variant, stem[1:] + tail: 2}
                    for mf in (1, 2):
                        rec.state((kind, variant, n, mf))
                        one(counts, {stem, '잡'}, {'책', '나무'}, mf, 0.3, 1, rec, big=True, **kw)
            else:
                base = ['먹고', '잡고', '누고', '먹으니', '잡으니', '책먹고', '먹고서']
                for exps in itertools.product((0, 3, 6), repeat=4):
                    counts = {w: (2 + i + variant) * 10 ** exps[i % 4] for i, w in enumerate(base)}
                    for mf, ms, mq in ((1, 0.3, 1), (2, 0.3, 10 ** 4)):
                        rec.state((kind, variant, exps, mf))
                        one(counts, {'먹', '잡'}, {'책'}, mf, ms, mq, rec, full=exps[0] == 3, big=True, **kw)
        finally:
            shutil.rmtree(d)
        rec.sample(case)

    subsets = [list(c) for k in range(len(menu) + 1) for c in itertools.combinations(menu, k)]
    return [
        Harness('reach', run_reach, [[s, p] for s in range(1, 7) for p in range(7)], about='stems of 1-6 syllables at the end of L parts with 0-6 syllables before', bound='42 L parts x 3^7 counts%s' % ('' if deep else ' / 8')),
        Harness('scale', run_scale, [[k, v, g] for k in ('many', 'endings', 'long', 'counts') for v in range(2 if not deep else 8) for g in (False, True)], about='140 stems before 20 endings (2,900 eojeols), a stem before 1,000 R parts, parts of up to 10 characters, counts over six orders of magnitude, messages and log files on and off', bound='8 kinds x 2 thresholds'),
        Harness('blend', run_blend, [[list(f), mf, ms] for f in itertools.product((0, 1, 3), repeat=4) for mf in (1, 2) for ms in (0.1, 0.3, 0.625)], chunk=4, about='every count vector over eojeols in which one ending arises from several R parts', bound='9 eojeols'),
        Harness('counts', run_counts, [[list(f), mf, ms] for f in itertools.product([0, 1, 3] if deep else [0, 2], repeat=4) for mf in (1, 2, 3) for ms in (0.3, 0.625)], about='every count vector over twelve nesting eojeols', bound='counts %s' % ('0,1,3' if deep else '0,2')),
        Harness('stems', run_stems, [[n, mf] for n in (subsets if deep else subsets[:40]) for mf in (1, 2)], about='every subset of nine stems x noun subsets x thresholds', bound='2^9 x %d' % (len(subsets) if deep else 40)),
        Harness('inside', run_inside, [[n, r] for n in range(2, 9 if deep else 8) for r in range(5) if n + r <= 10], chunk=2, about='nouns of two to seven syllables that are or begin an eojeol a stem and an ending would explain, in the predicator extractor', bound='6 x 5 lengths x 2^3 companions x 4 noun sets x 3 minimums'),
        Harness('predicator', run_predicator, [[n, mf] for n in subsets[:60 if deep else 10] for mf in (1, 2)], about='extraction of endings inside the predicator extractor equals giving them', bound='stem subsets x noun subsets'),
    ]
