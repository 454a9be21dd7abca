"""P37: postagger.POSExtractor."""
from mc.core import Harness

PROP = dict(
    id='P37',
    title='POSExtractor finds nouns, and predicators in the eojeols nouns leave over',
    statement=(
        'For every corpus, postagger.POSExtractor returns the nouns that LRNounExtractor_v2 (with its length limits, two features, eojeol limit 15, domain features, no compounds, minimum eojeol frequency 2, noun frequency 10 and score 0.4) finds, and the adjectives and verbs (frequency 10 or more) that PredicatorExtractor, with those nouns and with extraction of endings and stems, finds in exactly the eojeols that those nouns leave over. '
        'A second corpus given to the same object gives the result of a new object, and the corpus stays as it was.'),
    quantifier=dict(over=['inputs', 'histories'], text='all corpora, length limits and sequences of corpora'),
    why_tests_cant='No test calls it.',
    anchors=dict(files=['soynlp/postagger/_pos_extractor.py', 'soynlp/noun/_noun_ver2.py', 'soynlp/predicator/_predicator.py'],
                 mechanism=[dict(name='POSExtractor._extract_nouns / _extract_predicators', where='soynlp/postagger/_pos_extractor.py')],
                 state=[dict(name='L-R graph', meaning='eojeols that no noun covers', where='soynlp/postagger/_pos_extractor.py')],
                 observe_at=['POSExtractor.extract'], hook_needed=None))

CHECK = dict(
    technique='bounded-exhaustive enumeration of corpora on the real extractor against the composition of the two extractors (decided by P25, P27, P34-P36)',
    level_note='All presences of twelve eojeols with counts around the minima; the default stems and endings are replaced by small sets, because conjugating all default stems with all default endings takes a minute per corpus.',
    assumptions=['all eojeols are complete Hangul'])


def harnesses(tier):
    from soynlp.noun import LRNounExtractor_v2
    from soynlp.postagger import POSExtractor
    from soynlp.predicator import PredicatorExtractor
    from soynlp.utils import LRGraph
    deep = tier == 'thorough'

    def small(on):
        """small default dictionaries while on"""
        if on:
            if not hasattr(PredicatorExtractor, '_load_default_stems') or not hasattr(PredicatorExtractor, '_load_default_eomis'):
                return None
            old = PredicatorExtractor._load_default_stems, PredicatorExtractor._load_default_eomis
            PredicatorExtractor._load_default_stems = lambda self, *a, **k: ({'크', '작'}, {'가', '먹', '보', '나무라'})
            PredicatorExtractor._load_default_eomis = lambda self, *a, **k: {'고', '는', '은', '았다', '었다', '지', 'ㄴ', 'ㄴ다', '는다', '던'}
            return old

    def restore(old):
        if old:
            PredicatorExtractor._load_default_stems, PredicatorExtractor._load_default_eomis = old

    def reference(sents, l, r):
        ex = LRNounExtractor_v2(max_left_length=l, max_right_length=r, min_num_of_features=2, max_frequency_when_noun_is_eojeol=15, extract_compound=False, extract_pos_feature=True, verbose=False)
        ex.train(list(sents), min_eojeol_frequency=2)
        nouns = ex.extract(min_noun_score=0.4, min_noun_frequency=10, reset_lrgraph=False)
        left = {}
        for e, c in ex.lrgraph.to_EojeolCounter().items():
            left[e] = c
        pairs = {}
        for e, c in left.items():
            for i in range(1, min(l, len(e)) + 1):
                if len(e) - i <= r:
                    pairs.setdefault(e[:i], {})[e[i:]] = c
        pe = PredicatorExtractor(nouns, extract_eomi=True, extract_stem=True, verbose=False)
        pe.train(LRGraph(pairs), min_eojeol_frequency=2)
        return nouns, pe.extract(min_predicator_frequency=10)

    def plain(res):
        nouns, (adj, verb) = res
        return ({w: tuple(s) for w, s in nouns.items()},) + tuple({w: (p.frequency, set(p.lemma)) for w, p in t.items()} for t in (adj, verb))

    eoj = ['나무는', '나무가', '나무를', '나무라고', '책은', '책을', '먹고', '먹었다', '큰', '마시고', '마시지', '마시던', '가는', '나무']
    counts = [(4, 3, 3, 11, 6, 4, 10, 9, 12, 50, 40, 11, 2, 16), (10, 1, 2, 3, 9, 1, 2, 30, 1, 100, 1, 9, 12, 3)]

    def corpus(mask, v):
        return [w for i, w in enumerate(eoj) if mask >> i & 1 for _ in range(counts[v][i])]

    def run(case, rec):
        hi, v = case
        old = small(True)
        if old is None:
            if hi % 32:
                return       # the full default dictionaries take long to load
        try:
            for lo in range(128) if old else (5, 85):
                mask = hi << 7 | lo
                if not mask:
                    continue
                sents = corpus(mask, v)
                l, r = ((10, 8), (10, 8), (2, 8), (3, 2))[mask % 4 if lo % 3 == 0 else 0]
                ex = POSExtractor(l_max_length=l, r_max_length=r, verbose=False)
                want = plain(reference(sents, l, r))
                given = list(sents)
                what = 'sentences %r (l_max_length=%d, r_max_length=%d)' % ({w: sents.count(w) for w in sents}, l, r)
                rec.equal(plain(ex.extract(sents)), want, 'nouns, adjectives and verbs of ' + what)
                rec.equal(sents, given, 'corpus after ' + what)
                if lo % 16 == 1 and old:
                    other = corpus(mask ^ 0b10110101101101, 1 - v) or ['가']
                    rec.equal(plain(ex.extract(other)), plain(reference(other, l, r)), 'second corpus %r after %s' % (sorted(set(other)), what))
                    rec.equal(plain(ex.extract(sents)), want, 'third corpus (as the first), ' + what)
                rec.state((mask, v))
                rec.outcome(len(want[0]) * 3 + bool(want[1]) + bool(want[2]))
                rec.trace()
        finally:
            restore(old)
        rec.sample(case)

    return [Harness('corpora', run, [[hi, v] for hi in range(128) for v in (0, 1) if deep or (hi * 5 + v * 3) % 8 == 0], chunk=1, about='all presences of 14 eojeols with counts around the minima, sequences of three corpora', bound='2^14 x 2 count vectors%s' % ('' if deep else ' (every eighth block of 2^7)'))]
