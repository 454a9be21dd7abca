"""A registry of the components of soynlp, each with a few short histories, for the properties that
speak about all of them: independence of instances, determinism, concurrent queries.

A Kind has three variants.  make(v) builds an object (construction and training), steps(v) lists
(label, function of the object) pairs: further trainings and queries.  queries(v) are the steps
that only read; they may be repeated and interleaved in any order on one trained object."""
import os
import shutil
import tempfile


def canon(x):
    """Result -> value compared with ==, free of hash order and of shared mutable state."""
    if isinstance(x, Bag):
        return ('bag', sorted((canon(v) for v in x.items), key=repr))
    if hasattr(x, 'todense'):
        return ('matrix', x.toarray().tolist())
    if hasattr(x, 'tolist'):
        return canon(x.tolist())
    if isinstance(x, dict):
        return ('dict', sorted(((canon(k), canon(v)) for k, v in x.items()), key=repr))
    if isinstance(x, (set, frozenset)):
        return ('set', sorted((canon(v) for v in x), key=repr))
    if isinstance(x, (list, tuple)):
        return [canon(v) for v in x]
    if isinstance(x, float):
        return float('%.12g' % x)
    if isinstance(x, (str, int, bool, bytes, type(None))):
        return x
    if isinstance(x, range):
        return list(x)
    raise TypeError('no canonical form of %r' % (x,))


SPOIL = [False]


class Bag:
    """A result whose order does not matter; the result itself is still there to be changed."""
    def __init__(self, items):
        self.items = items


def junk(x, depth=0):
    """Change everything a caller can change in a result."""
    if isinstance(x, Bag):
        x = x.items
    if depth > 6:
        return
    if hasattr(x, 'todense'):
        x.data[...] = -77
        return
    if hasattr(x, 'tolist'):
        if getattr(x, 'ndim', 0) and x.flags.writeable:
            x[...] = 77
        return
    if isinstance(x, dict):
        for v in list(x.values()):
            junk(v, depth + 1)
        x.clear()
        x['junk'] = 77
    elif isinstance(x, set):
        x.clear()
        x.add('junk')
    elif isinstance(x, (list, tuple)):
        for v in x:
            junk(v, depth + 1)
        if isinstance(x, list):
            x[:] = ['junk']


def taken(value, result):
    """The canonical form of a result; the result itself is spoilt when SPOIL is on."""
    c = canon(value)
    if SPOIL[0]:
        junk(result)
    return c


class Kind:
    def __init__(self, name, make, steps, queries, heavy):
        self.name, self.make, self.steps, self.queries, self.heavy = name, make, steps, queries, heavy


class Scratch:
    """Objects whose steps write files get a folder of their own, removed with the object."""
    def __init__(self):
        self.path = tempfile.mkdtemp()

    def file(self, name):
        return os.path.join(self.path, name)

    def __del__(self):
        shutil.rmtree(self.path, ignore_errors=True)


SENTS = [
    ['가나다 가나는 가나', '다라가 가나다라 다라를', '가나가 다라는 다라', '마바 마바는 마바를 가나'],
    ['다라다 다라는', '가나를 다라가 다라', '사아 사아는 사아가', '다라 다라 가나', '사아를 가나다'],
    ['가나 다라', '가나다', '가나는 가나는 사아는', '사아', '다라가 마바가'],
]
TEXTS = [
    ['가나다라 다라는 사아가나', '가나 마바ㅋㅋㅋ abc 123.5'],
    ['다라가나마 사아사아', '마바 가나는!!! X-y 10km'],
    ['가가나나 라다라다', '사아 다라ㅠㅠ http 3시'],
]


def kinds():
    from soynlp import hangle, lemmatizer, normalizer, pos, postagger, predicator, tokenizer, utils, vectorizer, word
    from soynlp.noun import LRNounExtractor, LRNounExtractor_v2, NewsNounExtractor, extract_domain_pos_features
    from soynlp.utils import DoublespaceLineCorpus, EojeolCounter, LRGraph
    out = []

    def kind(name, make, steps, queries=None, heavy=False):
        out.append(Kind(name, make, steps, queries or (lambda v: []), heavy))

    def view(fn):
        def run(o):
            r = fn(o)
            return taken(r, r)
        return run

    def back(text):
        return ' '.join(text.split()[::-1])

    SCORES = [{'가나': 0.9, '다라': 0.8, '사아': 0.5, '가': 0.1, '가나다': 0.4}, {'가나': 0.2, '다라': 0.7, '라다': 0.75, '마바': 0.5}, {'가가': 0.3, '나나': 0.4, '사아': 0.9, '다': 0.2}]

    # -- tokenizers --------------------------------------------------------------------------
    def l_steps(v):
        a, b = TEXTS[v]
        return [('tokenize', view(lambda o: o.tokenize(a))), ('unflattened', view(lambda o: o.tokenize(b, flatten=False))),
                ('tolerance', view(lambda o: o.tokenize(a, tolerance=0.3))), ('without R', view(lambda o: o(b, remove_r=True)))]

    def l_queries(v):
        a, b = TEXTS[v]
        return l_steps(v) + [('tolerance backwards', view(lambda o: o.tokenize(back(a), tolerance=0.2))), ('another tolerance', view(lambda o: o.tokenize(SENTS[v][0] + ' ' + a, tolerance=0.1, flatten=False)))]
    kind('LTokenizer', lambda v: tokenizer.LTokenizer(scores=dict(SCORES[v])), l_steps, l_queries)
    kind('LTokenizer by default', lambda v: tokenizer.LTokenizer(), l_steps, l_queries)

    def m_steps(v):
        a, b = TEXTS[v]
        return [('tokenize', view(lambda o: o.tokenize(a))), ('unflattened', view(lambda o: o.tokenize(b, flatten=False))), ('call', view(lambda o: o(b + a)))]

    def m_queries(v):
        a, b = TEXTS[v]
        return m_steps(v) + [('backwards', view(lambda o: o.tokenize(back(a + ' ' + b))))]
    kind('MaxScoreTokenizer', lambda v: tokenizer.MaxScoreTokenizer(scores=dict(SCORES[v])), m_steps, m_queries)
    kind('MaxScoreTokenizer by default', lambda v: tokenizer.MaxScoreTokenizer(), m_steps, m_queries)
    kind('RegexTokenizer', lambda v: tokenizer.RegexTokenizer(), m_steps, m_queries)

    def lr_make(v):
        return tokenizer.MaxLRScoreTokenizer(Dl=[{'가나': 0.9, '다라': 0.8}, {'다라': 0.5, '사아': 0.9}, {'가가': 1.0}][v], Dr=[{'는': 0.5, '라': 0.2}, {'가': 0.7}, {'나나': 0.3, '는': 0.1}][v])
    kind('MaxLRScoreTokenizer', lr_make, m_steps, m_queries)

    def n_steps(v):
        a, b = TEXTS[v]
        return [('compose', view(lambda o: o.tokenize(a))), ('parts', view(lambda o: o.tokenize(a, compose_compound=False))), ('call', view(lambda o: o(b)))]

    def n_queries(v):
        a, b = TEXTS[v]
        return n_steps(v) + [('backwards', view(lambda o: [o.tokenize(back(a)), o.tokenize(SENTS[v][0], compose_compound=False)]))]
    kind('NounLMatchTokenizer', lambda v: tokenizer.NounLMatchTokenizer(dict(SCORES[v])), n_steps, n_queries)

    def nm_steps(v):
        a, b = TEXTS[v]
        return n_steps(v) + [('unflattened', view(lambda o: o.tokenize(b, flatten=False)))]
    kind('NounMatchTokenizer', lambda v: tokenizer.NounMatchTokenizer(dict(SCORES[v])), nm_steps, lambda v: n_queries(v) + nm_steps(v)[3:])

    # -- functions ----------------------------------------------------------------------------
    def f_steps(v):
        a, b = TEXTS[v]
        c = ['하하하하핳ㅋㅋㅋㅋ', '와하하하 ㅠㅠㅠㅠㅠ ab가', '앜ㅋㅋㅋㅋ 쿠쿠쿠'][v]
        n = normalizer
        return [('normalize', view(lambda o: [n.normalize(b), n.normalize(b, alphabet=True, number=True), n.normalize(c, remove_repeat=3)])),
                ('emoticon', view(lambda o: [n.emoticon_normalize(c), n.repeat_normalize(c), n.only_text(b), n.only_hangle(b), n.only_hangle_number(b), n.remove_doublespace(a + '   ' + b)])),
                ('lrgraph', view(lambda o: [n.normalize_sent_for_lrgraph(b), n.remain_hangle_on_last(c), tokenizer.normalize(c)]))]
    kind('normalizer', lambda v: None, f_steps, f_steps)

    def h_steps(v):
        a, b = TEXTS[v]
        h = hangle
        return [('jamo', view(lambda o: [h.decompose(ch) for ch in a] + [h.compose(*h.decompose(ch)) for ch in a if h.character_is_complete_korean(ch)] + [h.to_base(ch) for ch in a])),
                ('edit distance', view(lambda o: [h.levenshtein(a, b), h.jamo_levenshtein(a[:6], b[:6]), h.levenshtein(a, b, {('가', '나'): 0.5})])),
                ('set distance', view(lambda o: [h.cosine_distance(a, b), h.jaccard_distance(a, b)]))]
    kind('hangle', lambda v: None, h_steps, h_steps)

    def e_steps(v):
        a, b = TEXTS[v]
        return [('encode', view(lambda o: o.encode(a))), ('one hot', view(lambda o: o.sent_to_onehot(b))), ('back', view(lambda o: o.onehot_to_sent(o.sent_to_onehot(a))))]
    kind('ConvolutionHangleEncoder', lambda v: hangle.ConvolutionHangleEncoder(), e_steps, e_steps)

    def c_steps(v):
        stems = [['가', '걷', '아름답'], ['하', '모르', '푸'], ['있', '빨갛', '이']][v]
        ends = [['아', '었다', 'ㄴ'], ['았는데', '을', '고'], ['어요', 'ㄹ', '는']][v]
        words = [('걸', '었다'), ('아름다', '워'), ('갔', '다')] if v == 0 else [('몰', '라'), ('했', '다'), ('퍼', '')] if v == 1 else [('빨', '개'), ('있', '는'), ('였', '다')]
        L = lemmatizer
        return [('conjugate', view(lambda o: [L.conjugate(s, e) for s in stems for e in ends])),
                ('conjugate_chat', view(lambda o: [L.conjugate_chat(s, e) for s in stems for e in ends])),
                ('candidates', view(lambda o: [L.lemma_candidate(l, r) for l, r in words])),
                ('backwards', view(lambda o: [L.conjugate(s, e) for s in stems[::-1] for e in ends[::-1]]))]
    kind('conjugation', lambda v: None, c_steps, c_steps)

    def lem_make(v):
        return lemmatizer.Lemmatizer([{'가', '걷'}, {'하', '모르'}, {'있', '가'}][v], [{'았다', '었다', '고'}, {'아', '고'}, {'는', '어'}][v])

    def lem_steps(v):
        ws = [['갔다', '걸었다', '가고'], ['몰라', '하고', '해'], ['있는', '가', '있어']][v]
        return [('lemmatize', view(lambda o: [o.lemmatize(w) for w in ws])), ('stems only', view(lambda o: [o.lemmatize(w, check_only_stem=True) for w in ws])), ('candidates', view(lambda o: [o.candidates(w) for w in ws]))]
    kind('Lemmatizer', lem_make, lem_steps, lambda v: lem_steps(v) + [('backwards', view(lambda o: [o.lemmatize(w) | o.candidates(w[::-1]) for w in ('해', '있어', '갔다', '걸었다')]))])

    # -- words ----------------------------------------------------------------------------------
    def we_make(v):
        e = word.WordExtractor(min_frequency=[1, 2, 1][v], verbose_points=0, min_cohesion_forward=0.0)
        e.train(SENTS[v])
        return e

    def we_queries(v):
        return [('words', view(lambda o: o.extract())), ('cohesion', view(lambda o: [o.cohesion_score('가나'), o.all_cohesion_scores()])),
                ('entropy', view(lambda o: [o.branching_entropy('다라'), o.all_branching_entropy()])), ('variety', view(lambda o: [o.accessor_variety('가나'), o.all_accessor_variety()])), ('frequency', view(lambda o: o.frequency('다라')))]

    def we_steps(v):
        q = we_queries(v)
        return [q[0], ('more', lambda o: o.train(SENTS[(v + 1) % 3])), q[1], ('anew', lambda o: o.train(SENTS[v], cumulate=False)), q[2], q[0]]

    def we_more(v):
        return we_queries(v) + [('others', view(lambda o: [o.cohesion_score('다라'), o.branching_entropy('가나'), o.accessor_variety('다라'), o.frequency('가나')])), ('more others', view(lambda o: [o.accessor_variety('마바'), o.branching_entropy('사아'), o.cohesion_score('가나다')]))]
    kind('WordExtractor', we_make, we_steps, we_more)

    def bg_make(v):
        return word.Bigram(SENTS[v], min_frequency=1, verbose=False, score=['pmi', 'frequency', 'mikolov'][v])

    def bg_queries(v):
        return [('all', view(lambda o: o.extract(topk=-1, threshold=-100)))]

    def bg_steps(v):
        return bg_queries(v) + [('train', lambda o: o.train(SENTS[(v + 1) % 3])), ('all', bg_queries(v)[0][1])]
    kind('Bigram', bg_make, bg_steps, bg_queries)

    def pmi_steps(v):
        import numpy as np
        import scipy.sparse as sp
        x = lambda: sp.csr_matrix(np.array([[[1, 2, 0], [0, 3, 1], [4, 0, 1]], [[0, 1], [5, 2]], [[2, 2, 1], [1, 0, 3], [0, 0, 7]]][v], dtype=float))
        return [('pmi', view(lambda o: [r for r in word.pmi(x())])), ('shifted', view(lambda o: [r for r in word.pmi(x(), min_pmi=-1, alpha=0.5, beta=0.75)])),
                ('contexts', view(lambda o: list(vectorizer.sent_to_word_contexts_matrix(SENTS[v], windows=2, min_tf=2, verbose=False, dynamic_weight=v == 1))))]
    kind('pmi', lambda v: None, pmi_steps, pmi_steps)

    def bv_make(v):
        o = vectorizer.BaseVectorizer(min_tf=v, verbose=False) if v else vectorizer.BaseVectorizer(tokenizer=lambda x: x.split(), verbose=False)
        o.fit(SENTS[v])
        return o

    def bv_queries(v):
        s = SENTS[v][1] + ' 없는말'
        return [('transform', view(lambda o: o.transform(SENTS[(v + 1) % 3]))), ('list', view(lambda o: o.encode_a_doc_to_list(s))), ('bow', view(lambda o: o.encode_a_doc_to_bow(s))),
                ('back', view(lambda o: [o.decode_from_list(o.encode_a_doc_to_list(s)), o.decode_from_bow(o.encode_a_doc_to_bow(s)), o.vocabs() if callable(o.vocabs) else list(o.vocabs), len(o)]))]

    def bv_steps(v):
        q = bv_queries(v)
        return [q[0], ('fit', view(lambda o: o.fit_transform(SENTS[(v + 2) % 3]))), q[3], q[2]]
    kind('BaseVectorizer', bv_make, bv_steps, bv_queries)

    # -- counters and graphs -----------------------------------------------------------------
    def ec_queries(v):
        return [('items', view(lambda o: dict(o.items()))), ('count', view(lambda o: [o['가나'], o.get_eojeol_count('다라'), len(o), o.coverage])), ('uncovered', view(lambda o: o.get_uncovered_eojeols(1))), ('graph', view(lambda o: [o.to_lrgraph().get_r('가나', -1), dict(o.to_lrgraph().to_EojeolCounter().items())]))]

    def ec_steps(v):
        q = ec_queries(v)
        return [q[0], ('cover', lambda o: o.remove_covered_eojeols({'가나', '다라가'})), q[1], q[2]]
    kind('EojeolCounter', lambda v: EojeolCounter(SENTS[v], min_count=[1, 2, 1][v]), ec_steps, ec_queries)

    def lg_queries(v):
        return [('R', view(lambda o: Bag(o.get_r('가나', -1)))), ('L', view(lambda o: Bag(o.get_l('는', -1)))), ('counter', view(lambda o: dict(o.to_EojeolCounter().items()))), ('few', view(lambda o: [c for _, c in o.get_r('가', 1)]))]

    def lg_steps(v):
        q = lg_queries(v)
        return [q[0], ('remove', lambda o: o.remove_eojeol('가나는', 1)), ('add', lambda o: o.add_eojeol('사아를', 2)), q[0], q[1], ('reset', lambda o: o.reset_lrgraph()), q[2]]
    kind('LRGraph', lambda v: LRGraph(sents=SENTS[v]), lg_steps, lg_queries)
    kind('LRGraph built step by step', lambda v: LRGraph(), lambda v: [('add', lambda o: o.add_eojeol('가나는', v + 1))] + lg_steps(v)[:5])

    class Corpus:
        def __init__(self, v):
            self.scratch = Scratch()
            with open(self.scratch.file('c'), 'w', encoding='utf8') as f:
                f.write('\n'.join('  '.join(SENTS[v][i:] + SENTS[v][:i]) for i in range(3)) + '\n')
            self.c = DoublespaceLineCorpus(self.scratch.file('c'), iter_sent=v != 1)

    def dc_steps(v):
        return [('length', view(lambda o: len(o.c))), ('lines', view(lambda o: list(o.c))), ('first', view(lambda o: next(iter(o.c))))]
    kind('DoublespaceLineCorpus', Corpus, dc_steps, dc_steps)

    # -- dictionaries and tagging --------------------------------------------------------------
    POS = [{'Noun': {'가나', '다라'}, 'Josa': {'는', '가'}, 'Verb': {'다'}}, {'Noun': {'사아', '다라가'}, 'Josa': {'를'}, 'Adverb': {'가나'}}, {'Noun': {'마바'}, 'Verb': {'가나다'}, 'Adjective': {'사아'}}]

    def d_queries(v):
        return [('tags', view(lambda o: [Bag(o.get_pos(w)) for w in ('가나', '는', '다라', '없')])), ('is', view(lambda o: [o.word_is_tag(w, t) for w in ('가나', '다라가') for t in ('Noun', 'Adverb', 'X')])), ('longest', view(lambda o: o.max_length))]

    def d_steps(v):
        q = d_queries(v)
        return [q[0], ('add', lambda o: o.add_words('Noun', ['가나다라', '없'])), ('remove', lambda o: o.remove_words('Josa' if v < 2 else 'Verb', {'는', '를', '가나다'})), q[0], q[1], q[2]]
    kind('Dictionary', lambda v: postagger.Dictionary({t: set(w) for t, w in POS[v].items()}), d_steps, d_queries)

    def t_make(v):
        d = postagger.Dictionary({t: set(w) for t, w in POS[v].items()})
        if v == 2:
            return postagger.SimpleTagger(postagger.LRTemplateMatcher(d), postagger.LREvaluator(preference={'Noun': {'마바': 1.5}}), postagger.UnknowLRPostprocessor())
        return postagger.SimpleTagger(postagger.LRTemplateMatcher(d), postagger.LREvaluator(), postagger.UnknowLRPostprocessor())

    def t_queries(v):
        a, b = TEXTS[v]
        return [('tag', view(lambda o: o.tag(a))), ('unflattened', view(lambda o: o.tag(SENTS[v][0], flatten=False))), ('text', view(lambda o: o.tag(SENTS[v][1])))]

    def t_steps(v):
        q = t_queries(v)
        return [q[0], ('add', lambda o: o.dictionary.add_words('Noun', ['사아가나', '다라다'])), q[1], q[2]]
    kind('SimpleTagger', t_make, t_steps, t_queries)

    # -- nouns -------------------------------------------------------------------------------------
    REAL = [['아이오아이는 아이오아이가 노래를 노래는 노래', '노래가 아이오아이를 학교에서 학교는', '학교를 학교에 노래로 아이오아이와'],
            ['학교가 학교를 학교는 정부가', '정부는 정부를 정부에서 노래는', '노래를 먹는다 먹고 정부'],
            ['정부의 정부에 정부가 경제는 경제를', '경제가 경제의 노래가', '가고 가는 경제 정부']]

    def v1_make(v):
        o = LRNounExtractor(verbose=False, min_num_of_features=1)
        o.train(REAL[v], min_noun_frequency=1)
        return o

    def v1_queries(v):
        return [('predict', view(lambda o: [o.predict(w) for w in ('노래', '학교', '정부', '노')])), ('extract', view(lambda o: o.extract(min_noun_score=0.1, min_noun_frequency=1)))]

    def v1_steps(v):
        q = v1_queries(v)
        return [q[1], ('train', lambda o: o.train(REAL[(v + 1) % 3], min_noun_frequency=1)), q[0], q[1]]
    kind('LRNounExtractor', v1_make, v1_steps, lambda v: v1_queries(v)[:1] + [('backwards', view(lambda o: [o.predict(w) for w in ('노', '정부', '학교', '노래')]))])

    def v2_make(v):
        o = LRNounExtractor_v2(verbose=False)
        o.train(REAL[v])
        return o

    def v2_queries(v):
        return [('predict', view(lambda o: [o.predict(w) for w in ('노래', '학교', '정부', '노', '경제')])), ('predict other', view(lambda o: [o.predict(w, 0.6) for w in ('아이오아이', '먹는', '가')]))]

    def v2_steps(v):
        q = v2_queries(v)
        return [q[0], ('extract', view(lambda o: o.extract())), ('train', lambda o: o.train(REAL[(v + 1) % 3])), q[1], ('extract again', view(lambda o: o.extract(0.2, 1))), ('compound', view(lambda o: o.decompose_compound('노래학교')))]
    kind('LRNounExtractor_v2', v2_make, v2_steps, v2_queries, True)

    def nn_make(v):
        o = NewsNounExtractor(verbose=False)
        o.train(REAL[v])
        return o

    def nn_steps(v):
        return [('predict', view(lambda o: [o.predict(w) for w in ('노래', '학교', '정부')])), ('extract', view(lambda o: o.extract(min_noun_score=0.1, min_frequency=1)))]
    kind('NewsNounExtractor', nn_make, nn_steps, lambda v: nn_steps(v)[:1] + [('backwards', view(lambda o: [o.predict(w) for w in ('정부', '없다', '학교', '노래')]))])

    def dom(v):
        counts = [{'가나': {'은': 3, '에': 2}, '다라': {'은': 4, '에': 1}}, {'가나': {'은': 1, '물': 9}, '마바': {'물': 3}}, {'다라': {'나은': 2, '은': 2}, '가나': {'나은': 2}}][v]
        g = LRGraph(lrgraph=counts)
        return extract_domain_pos_features({'가나': (5, 1), '다라': (5, 1), '마바': (5, 0.5)}, g, {'에'}, min_noun_score=0.5, min_noun_frequency=2, min_pos_score=0.25, min_pos_feature_frequency=2, min_num_of_unique_lastchar=2, min_entropy_of_lastchar=0.2, min_noun_entropy=0.2)
    kind('domain features', lambda v: None, lambda v: [('extract', view(lambda o: dom(v)))] * 2, lambda v: [('extract', view(lambda o: dom(v)))])

    # -- predicates -----------------------------------------------------------------------------
    WORDS = [['가고 가는 갔다 먹고 먹는 책도', '먹었다 큰 크고 크다 책', '가고 큰 아프다'], ['아프고 아픈 먹다 먹는다', '보고 보는 봤다 책도', '가는 보고 큰'], ['봤다 보다 커서 크고', '갔는데 가고', '책도 먹고 아파서']]

    def p_make(v):
        o = predicator.PredicatorExtractor({'책'}, josas={'도'}, adjectives={'크', '아프'}, verbs={'가', '먹', '보'}, eomis={'고', '는', 'ㄴ', '다', '었다', '았다', '어서', '아서'}, verbose=False)
        o.train(WORDS[v], min_eojeol_frequency=1)
        return o

    def p_view(r):
        return taken([{w: [p.frequency, set(p.lemma)] for w, p in x.items()} for x in r], r)

    def p_steps(v):
        return [('extract', lambda o: p_view(o.extract(min_predicator_frequency=1))), ('train', lambda o: o.train(WORDS[(v + 1) % 3], min_eojeol_frequency=1)), ('extract again', lambda o: p_view(o.extract(min_predicator_frequency=1)))]
    kind('PredicatorExtractor', p_make, p_steps)

    def eo_make(v):
        return predicator.EomiExtractor(LRGraph(sents=WORDS[v]), {'가', '먹', '보', '크', '아프'}, {'책'}, min_num_of_features=1, verbose=False)

    def eo_steps(v):
        return [('extract', view(lambda o: o.extract(min_eomi_score=0.2))), ('graph', view(lambda o: dict(o.lrgraph.to_EojeolCounter().items()))), ('extract again', view(lambda o: o.extract(min_eomi_score=0.1)))]
    kind('EomiExtractor', eo_make, eo_steps)

    def st_make(v):
        return predicator.StemExtractor(LRGraph(sents=WORDS[v]), {'가', '먹', '보'}, {'고', '는', '다', '었다'}, min_num_of_unique_R_char=1, min_entropy_of_R_char=0.0, verbose=False)

    def st_steps(v):
        return [('predict', view(lambda o: [o.predict(l) for l in ('크', '아프', '먹', '책')])), ('extract', view(lambda o: o.extract(min_stem_score=0.1, min_stem_frequency=1)))]
    kind('StemExtractor', st_make, st_steps, lambda v: st_steps(v)[:1] + [('backwards', view(lambda o: [o.predict(l) for l in ('책', '먹', '보', '크')]))])

    def pos_make(cls):
        def make(v):
            o = cls(verbose=False)
            o.train([x + ' 조용히 가고 가는 갔다 먹는다 아름답다 아름다운' for x in REAL[v]])
            return o
        return make

    def pos_view(r):
        return taken({tag: {w: [x.frequency, set(x.lemma)] if hasattr(x, 'lemma') else x for w, x in t.items()} if isinstance(t, dict) else t for tag, t in r.items()}, r)

    def pos_steps(v):
        return [('extract', lambda o: pos_view(o.extract()))]
    kind('NewsPOSExtractor', pos_make(pos.NewsPOSExtractor), pos_steps, heavy=True)
    kind('ChatPOSExtractor', pos_make(pos.ChatPOSExtractor), pos_steps, heavy=True)

    def ad_steps(v):
        stems = [{'조용하', '가'}, {'성실하'}, {'하', '나'}][v]
        return [('adverbs', view(lambda o: [pos.stem_to_adverb(stems), len(pos.load_default_adverbs())])), ('with suffixes', view(lambda o: pos.stem_to_adverb(stems, '게히')))]
    kind('adverbs', lambda v: None, ad_steps, ad_steps)

    def ut_steps(v):
        import numpy as np
        x = np.array([[1., 0], [2, 1], [0, 1], [-1, 3]])[: 3 + v % 2]
        items = ['a', 'b', 'c', 'd']
        return [('similar', view(lambda o: utils.most_similar('b', x, {w: i for i, w in enumerate(items)}, items, topk=2)))]
    kind('most_similar', lambda v: None, ut_steps, ut_steps)
    out.extend(configs())
    return out


def configs():
    """Components with optional settings: variant 0 by default, the others with settings that give
    other results for the same inputs, so that settings that leak from one object to another show."""
    import numpy as np
    from soynlp import hangle, lemmatizer, normalizer, pos, postagger, predicator, tokenizer, vectorizer, word
    from soynlp.noun import LRNounExtractor, LRNounExtractor_v2, NewsNounExtractor
    from soynlp.utils import EojeolCounter, LRGraph
    from mc import gen
    out = []

    def config(name, makers, query, heavy=False):
        def q(o):
            r = query(o)
            return taken(r, r)
        steps = lambda v: [('query', q), ('query again', q)]
        out.append(Kind('settings: ' + name, lambda v: makers[v](), steps, lambda v: [], heavy))

    words = list(gen.words_upto('가나다', 4, 1))
    tags = {'Noun': {'가나', '가나다', '다나', '나다'}, 'Josa': {'다', '나', '가다'}, 'Verb': {'가다', '다가나'}, 'Adjective': {'나가', '가가'}, 'Adverb': {'다다', '가나'}, 'Exclamation': {'나나'}, 'Eomi': {'가'}}

    def tagger(**kw):
        t = {k: kw.pop(k) for k in ('ltags', 'templates') if k in kw}
        return lambda: postagger.SimpleTagger(postagger.LRTemplateMatcher(postagger.Dictionary({t: set(w) for t, w in tags.items()}), **t), postagger.LREvaluator(**kw), postagger.UnknowLRPostprocessor())
    config('tagger preferences', [tagger(), tagger(preference={'Noun': {'다나': 1.0, '나다': -1.0}, 'Adverb': {'다다': -3}}), tagger(preference={'Josa': {'가다': 2.0, '다': -1.0}, 'Noun': {'나다': 2.0}})], lambda o: [o.tag(w) for w in words])
    config('tagger weights', [tagger(), tagger(weights=(('a', -1.0), ('b', 0.5), ('c', 0.0), ('d', 0.0), ('e', 0.1), ('f', 0.3), ('g', 0.0))), tagger(ltags={'Noun', 'Exclamation'}, templates={'Noun': ('Eomi', 'Josa'), 'Exclamation': ('Verb',)})], lambda o: [o.tag(w) for w in words])

    def eojeol(w=None, **kw):
        return lambda: postagger.SimpleTagger(postagger.EojeolTemplateMatcher(postagger.Dictionary({t: set(w) for t, w in tags.items()}), **kw), postagger.SimpleEojeolEvaluator(w))
    config('eojeol tagger', [eojeol(), eojeol([('x', -v) for v in (0.1, -0.15, 0.2, -0.3, 0.1, -0.4, 0.1, 0.2)]), eojeol(None, single_tags=['Noun', 'Eomi'], lr_templates=[('Verb', 'Eomi'), ('Noun', 'Adverb')])], lambda o: [o.tag(w) for w in words])

    sc = {'가나': 0.5, '가나다': 0.4, '나다': 0.5, '다다다': 0.2, '나': -0.5, '다나가': 0.1}
    config('LTokenizer', [lambda: tokenizer.LTokenizer(), lambda: tokenizer.LTokenizer(scores=dict(sc)), lambda: tokenizer.LTokenizer(scores=dict(sc), default_score=0.45)], lambda o: [[o.tokenize(w), o.tokenize(w, tolerance=0.2), o(w)] for w in words])
    config('MaxScoreTokenizer', [lambda: tokenizer.MaxScoreTokenizer(), lambda: tokenizer.MaxScoreTokenizer(scores=dict(sc), max_length=2), lambda: tokenizer.MaxScoreTokenizer(scores=dict(sc), default_score=0.45)], lambda o: [o.tokenize(w + '다나', flatten=False) for w in words])
    config('MaxLRScoreTokenizer', [lambda: tokenizer.MaxLRScoreTokenizer(Dl={'가나': 0.5, '나다': 0.6}, Dr={'다': 0.3}), lambda: tokenizer.MaxLRScoreTokenizer(Dl={'가나': 0.5, '나다': 0.6}, Dr={'다': 0.3}, preference_l={'가가': 1.0, '가나다': 2.0}, preference_r={'나': 1.0}), lambda: tokenizer.MaxLRScoreTokenizer(Dl={'가나다': 1.0, '나가': 0.9}, Dr={'가': 1.0, '나': 0.2}, lrgraph={'가나': {'다': 5, '': 2}, '나가': {'나': 1}}, max_lscore_difference=0.0, ensurable_score_l=0.95)], lambda o: [o.tokenize(w) for w in words])
    config('noun tokenizers', [lambda: {'가나': 0.5}, lambda: {'가나': 0.5, '나다': 0.9, '다': 1}, lambda: {}], lambda o: [[tokenizer.NounMatchTokenizer(dict(o)).tokenize(w, compose_compound=c), tokenizer.NounLMatchTokenizer(dict(o)).tokenize(w, compose_compound=c)] for w in words for c in (True, False)])

    config('Lemmatizer', [lambda: lemmatizer.Lemmatizer({'가', '먹'}, {'고', '았다', '었다', '는'}), lambda: lemmatizer.Lemmatizer({'가', '하', '크', '걷', '푸르'}, {'ㄴ', '아서', '어서', '었다', '어'}, {('푸르', '러'): (('푸르', '어'),), ('하', '여'): (('하', '어'), ('없', '음'))}), lambda: lemmatizer.Lemmatizer({'고', '막', '이르'}, {'아', '는', '었다'}, predefined={('이르', '렀다'): [('이르', '었다')]})], lambda o: [[o.lemmatize(w), o.candidates(w), o.lemmatize(w, check_only_stem=True)] for w in ('가고', '갔다', '먹었다', '먹는', '해서', '큰', '걸었다', '커서', '막아', '고는', '간', '푸르러', '이르렀다', '하여')])
    def units(o):
        from collections import Counter
        kw = [dict(unitfy=lambda t, m=m: m(o(t))) if o else {} for m in (Counter, set)]
        return [f(a, b, **k) for f, k in zip((hangle.cosine_distance, hangle.jaccard_distance), kw) for a, b in (('가나다 가', '가나 다가'), ('가 나', '가 나 다'))]
    config('set distances', [lambda: None, lambda: lambda t: [t[i:i + 2] for i in range(len(t))], lambda: lambda t: t.split()], units)
    config('edit distance', [lambda: (), lambda: ({('가', '나'): 0.25, ('다', '가'): 0.5},), lambda: ({('나', '가'): 0.75, ('나', '다'): 3},)], lambda o: [hangle.levenshtein(a, b, *o) for a in words[:39] for b in words[:12]])
    config('normalizer', [lambda: {}, lambda: dict(alphabet=True, number=True, punctuation=True), lambda: dict(number=True, remove_repeat=1)], lambda o: [normalizer.normalize(t, **o) for t in ('가나!! abc 123 ㅋㅋㅋㅋ ㅏㅏㅏ 하하하하하', 'ㅇㅇ A1 ?가가가가', '  x  y ')])

    docs = ['가 나 다 가', '나 다 라 A', '가 가 가', '다 라 마 a', '가 나']
    config('BaseVectorizer', [lambda: vectorizer.BaseVectorizer(verbose=False), lambda: vectorizer.BaseVectorizer(min_tf=2, max_tf=5, max_df=0.7, stopwords={'라'}, verbose=False), lambda: vectorizer.BaseVectorizer(tokenizer=lambda s: list(s), min_df=0.5, stopwords={' '}, verbose=False)], lambda o: [o.fit_transform(docs), o.transform(docs[:2]), o.encode_a_doc_to_bow('가 나 라 라'), dict(o.vocabulary_)])
    config('word contexts', [lambda: {}, lambda: dict(windows=1, min_tf=1, dynamic_weight=True), lambda: dict(windows=2, min_tf=2, tokenizer=lambda s: s.split()[::-1])], lambda o: list(vectorizer.sent_to_word_contexts_matrix(docs * 3, verbose=False, **o)))
    x = np.array([[1., 2, 0], [0, 3, 1], [4, 0, 1]])

    def pmis(o):
        import scipy.sparse as sp
        return [word.pmi(sp.csr_matrix(x), **o)]
    config('pmi', [lambda: {}, lambda: dict(min_pmi=-2, alpha=0.5), lambda: dict(beta=0.5, py=np.array([[0.5, 0.25, 0.25]]))], pmis)
    eoj = [' '.join(words[gen.mix(i * 5 + j) % 60] for j in range(5)) for i in range(30)]
    config('Bigram', [lambda: word.Bigram(verbose=False), lambda: word.Bigram(min_frequency=1, verbose=False, score='pmi', tokenizer=lambda s: list(s.replace(' ', ''))), lambda: word.Bigram(min_frequency=2, verbose=False, score='mikolov')], lambda o: [o.train(eoj), o.extract(topk=9, threshold=-50)])
    config('WordExtractor', [lambda: word.WordExtractor(min_frequency=2, verbose_points=0), lambda: word.WordExtractor(min_frequency=1, max_left_length=3, max_right_length=2, verbose_points=0, min_cohesion_forward=0.3, min_right_branching_entropy=0.2), lambda: word.WordExtractor(min_frequency=2, verbose_points=0, remove_subwords=True, min_left_accessor_variety=2, max_droprate_cohesion=0.5)], lambda o: [o.train(eoj), o.extract(), o.cohesion_score('가나'), len(o.L)])
    config('EojeolCounter', [lambda: EojeolCounter(eoj), lambda: EojeolCounter(eoj, min_count=2, max_length=3, preprocess=lambda s: s.replace('다', '')), lambda: EojeolCounter(eoj, min_count=3, filtering_checkpoint=5)], lambda o: [dict(o.items()), dict(o.to_lrgraph(2, 2).to_EojeolCounter().items())])
    config('LRGraph', [lambda: LRGraph(sents=eoj), lambda: LRGraph(sents=eoj, l_max_length=2, r_max_length=1), lambda: LRGraph(lrgraph={'가나': {'다': 3, '': 1}, '가': {'나다': 3, '나': 1}})], lambda o: [dict(o.get_r(w, -1)) for w in words] + [dict(o.get_l(w, -1)) for w in words])

    J = ['은', '는', '이', '가', '을', '를', '에', '에서', '로', '의', '도', '', '만은']
    N = ['학교', '정부', '노래', '학교정부', '정부노래', '나무학교', '고등', '고등학교', '나무', '바다', '바다가']
    real = [' '.join(N[gen.mix(i * 5 + j) % 11] + J[gen.mix(i + j * 13) % 13] for j in range(5)) for i in range(30)]
    config('LRNounExtractor', [lambda: LRNounExtractor(verbose=False), lambda: LRNounExtractor(verbose=False, max_left_length=3, max_right_length=2, min_num_of_features=4), lambda: LRNounExtractor(verbose=False, min_num_of_features=9, ensure_normalized=True)], lambda o: [o.train(real, 1), o.extract(0.3, 1), o.extract(0.6, 1)])
    config('NewsNounExtractor', [lambda: NewsNounExtractor(verbose=False), lambda: NewsNounExtractor(verbose=False, max_left_length=3, max_right_length=2, base_noun_dictionary={'고등', '바다가'}), lambda: NewsNounExtractor(verbose=False, base_noun_dictionary={'노래': 3, '만은': 2})], lambda o: [o.train(real), [o.predict(w) for w in N], o.extract(min_noun_score=0.1, min_frequency=1)])

    def v2(features=False, **kw):
        def make():
            o = LRNounExtractor_v2(verbose=False, **kw)
            o.want_features = features
            return o
        return make

    def v2_query(o):
        o.train(real + ['사과픽 사과팍 학교픽 정부팍 노래픽 바다픽 나무팍 나무픽 고등팍'] * 3)
        M = N + ['사과']
        res = [o.extract(), [o.decompose_compound(w) for w in N + ['학교노래정부', '나무바다', '바다학교픽']], [o.predict(w) for w in M]]
        if o.want_features:
            res.append(o.extract_domain_pos_features({w: (9, 1) for w in N}, append_extracted_features=True, min_noun_score=0.1, min_noun_frequency=1, min_pos_score=0.1, min_pos_feature_frequency=1, min_num_of_unique_lastchar=1, min_entropy_of_lastchar=0, min_noun_entropy=0))
            res.append([o.predict(w) for w in M])
        return res
    config('LRNounExtractor_v2', [v2(), v2(True, min_num_of_features=3, max_frequency_when_noun_is_eojeol=1), v2(True, extract_pos_feature=False, max_left_length=3, ensure_normalized=True)], v2_query, True)

    V = ['가고 가는 갔다 먹고 먹는 책도 책가고', '먹었다 큰 크고 크다 책 책이', '가고 큰 아프다 보다 봤다', '놀고 놀면 노는 논다 하고 해서 하면서']

    def p(*a, **kw):
        return lambda: predicator.PredicatorExtractor(*[set(x) for x in a], verbose=False, **kw)

    def p_query(o):
        o.train(V, min_eojeol_frequency=1)
        return [{w: [p.frequency, set(p.lemma)] for w, p in x.items()} for x in o.extract(min_predicator_frequency=1)]
    config('PredicatorExtractor', [p({'책'}, {'도', '이'}), p({'책', '해서'}, {'도', '이', '가고'}, adjectives={'크'}, verbs={'가', '먹', '보'}, eomis={'고', '는', 'ㄴ', '다', '었다', '았다'}), p({'책'}, {'도', '이'}, adjectives={'아프', '크'}, verbs={'놀', '하'}, eomis={'고', '면', '는', '어서', '다'}, extract_eomi=True)], p_query, True)
    config('EomiExtractor', [lambda: predicator.EomiExtractor(LRGraph(sents=V), {'가', '먹', '크', '놀'}, {'책'}, verbose=False, min_num_of_features=1), lambda: predicator.EomiExtractor(LRGraph(sents=V), {'가', '먹', '크', '보', '하'}, {'책', '해서'}, verbose=False, min_num_of_features=2), lambda: predicator.EomiExtractor(LRGraph(sents=V), {'놀', '아프'}, set(), verbose=False, min_num_of_features=1)], lambda o: [o.extract(min_eomi_score=0.1), o.extract(min_eomi_score=0.5)])

    def extract_pos(o):
        r = o.train_extract([t + ' 조용히 가고 가는 갔다 먹는다 아름답다 하고 하는' for t in real[:8]], min_num_of_eomi_features=2, min_eomi_score=0.1)
        return {tag: {w: [x.frequency, set(x.lemma)] if hasattr(x, 'lemma') else x for w, x in t.items()} if isinstance(t, dict) else t for tag, t in r.items()}
    config('POS extractors', [lambda: pos.NewsPOSExtractor(verbose=False), lambda: pos.ChatPOSExtractor(verbose=False), lambda: pos.NewsPOSExtractor(verbose=False, ensure_normalized=False, extract_eomi=False)], extract_pos, True)
    config('adverbs', [lambda: [], lambda: ['이'], lambda: ['게히']], lambda o: [pos.stem_to_adverb(s, *o) for s in ('조용하', ['하', '가', '성실하'])])
    return out


def ties():
    """Inputs full of equal scores and counts, for the determinism property: whatever is chosen among
    equals has to be chosen every time."""
    from soynlp import postagger, predicator, tokenizer, utils, vectorizer, word
    from soynlp.noun import LRNounExtractor, LRNounExtractor_v2, NewsNounExtractor
    from soynlp.utils import EojeolCounter, LRGraph
    from mc import gen
    out = []
    words = list(gen.words_upto('ab', 4, 1))
    syll = list(gen.words_upto('가나다', 3, 1))
    texts = ['가나다가나다', '나나가다나', '다가나가나다가 나다가나', '나가다']
    tags = ['Noun', 'Verb', 'Adjective', 'Adverb', 'Josa', 'Eomi', 'Exclamation']

    def kind(name, make, query):
        out.append(Kind(name, make, lambda v: [('result', lambda o: canon(query(o, v)))], lambda v: [], False))

    def tagger(v):
        pos = {}
        for i, w in enumerate(syll):
            for j in range(3):
                pos.setdefault(tags[(gen.mix(i * 3 + v) + j * (1 + v)) % 7], set()).add(w)
        d = postagger.Dictionary(pos)
        if v == 2:
            return postagger.SimpleTagger(postagger.EojeolTemplateMatcher(d), postagger.SimpleEojeolEvaluator())
        return postagger.SimpleTagger(postagger.LRTemplateMatcher(d), postagger.LREvaluator(), postagger.UnknowLRPostprocessor())
    kind('ties: tagger', tagger, lambda o, v: [o.tag(t) for t in texts + syll] if v < 2 else [o.tag(t) for t in syll if t])
    kind('ties: MaxScoreTokenizer', lambda v: tokenizer.MaxScoreTokenizer(scores={w: 1 for w in sorted(syll)[v::2]}), lambda o, v: [o.tokenize(t, flatten=False) for t in texts])
    kind('ties: LTokenizer', lambda v: tokenizer.LTokenizer(scores={w: 0.5 for w in sorted(syll)[v::2]}), lambda o, v: [o.tokenize(t, tolerance=0.1 * v) for t in texts])
    kind('ties: MaxLRScoreTokenizer', lambda v: tokenizer.MaxLRScoreTokenizer(Dl={w: 0.5 for w in sorted(syll)[v::3]}, Dr={w: 0.5 for w in sorted(syll)[v + 1::4]}), lambda o, v: [o.tokenize(t) for t in texts])
    kind('ties: noun tokenizers', lambda v: set(sorted(syll)[v::2]), lambda o, v: [[tokenizer.NounLMatchTokenizer(o).tokenize(t, compose_compound=c), tokenizer.NounMatchTokenizer({w: 1 for w in o}).tokenize(t, compose_compound=c)] for t in texts for c in (True, False)])
    sents = [' '.join(syll[gen.mix(i * 7 + j) % 20] for j in range(4)) for i in range(30)]
    kind('ties: Bigram', lambda v: word.Bigram(sents[v * 5:], min_frequency=1, verbose=False, score=['frequency', 'pmi', 'mikolov'][v]), lambda o, v: [o.extract(topk=k, threshold=-100) for k in (1, 3, 7)])
    kind('ties: vocabulary', lambda v: vectorizer.BaseVectorizer(min_tf=v, verbose=False), lambda o, v: [o.fit_transform(sents), list(o.vocabs() if callable(o.vocabs) else o.vocabs), list(vectorizer.sent_to_word_contexts_matrix(sents, windows=2, min_tf=v + 1, verbose=False))])
    kind('ties: LRGraph', lambda v: LRGraph(sents=sents) if v < 2 else EojeolCounter(sents).to_lrgraph(), lambda o, v: [[o.get_r(w, k), o.get_l(w, k)] for w in syll for k in (1, 2, -1)] + [list(o.to_EojeolCounter().items())])
    kind('ties: words', lambda v: word.WordExtractor(sents, min_frequency=1 + v, verbose_points=0), lambda o, v: [o.extract(), o.all_cohesion_scores()])

    J = ['은', '는', '이', '가', '을', '를', '에', '에서', '로', '의', '도', '']
    N = ['학교', '정부', '노래', '학교정부', '정부노래', '노래학교', '정부정부', '경제학교정부', '노래가', '학', '경제']
    real = [' '.join(N[gen.mix(i * 5 + j) % 11] + J[gen.mix(i + j * 13) % 12] for j in range(5)) for i in range(40)]

    def v2(v):
        o = LRNounExtractor_v2(verbose=False, min_num_of_features=v)
        o.train(real)
        return o
    kind('ties: LRNounExtractor_v2', v2, lambda o, v: [o.extract(), [o.decompose_compound(w) for w in ('학교정부노래', '정부정부학교', '경제학교정부노래')], dict(o.lrgraph.to_EojeolCounter().items())])

    def v1(v):
        o = LRNounExtractor(verbose=False)
        o.train(real[v * 3:], min_noun_frequency=1)
        return o
    kind('ties: LRNounExtractor', v1, lambda o, v: o.extract(0.1, 1))

    def news(v):
        o = NewsNounExtractor(verbose=False)
        o.train(real[v * 3:])
        return o
    kind('ties: NewsNounExtractor', news, lambda o, v: o.extract(min_noun_score=0.1, min_frequency=1))

    S = ['가', '갈', '걷', '걸', '묻', '물', '크', '커', '먹', '보', '이르', '일', '하', '아프', '고프']
    E = ['고', '는', 'ㄴ', '다', '어', '아', '어서', '아서', '었다', '았다', '으면', '면', 'ㄹ', '러', '지']

    def verbs(v):
        from soynlp.lemmatizer import conjugate
        ws = []
        for i, s in enumerate(S):
            for j, e in enumerate(E):
                try:
                    ws += sorted(conjugate(s, e)) * (1 + gen.mix(i * 31 + j + v) % 2)
                except Exception:
                    pass
        return [' '.join(ws[i::9]) for i in range(9)]

    def pred(v):
        o = predicator.PredicatorExtractor({'보고', '나무'}, josas={'도', '는'}, adjectives=set(S[v::2]), verbs=set(S[::2 - v % 2]), eomis=set(E), verbose=False)
        o.train(verbs(v), min_eojeol_frequency=1)
        return o
    kind('ties: PredicatorExtractor', pred, lambda o, v: [{w: [p.frequency, set(p.lemma)] for w, p in x.items()} for x in o.extract(min_predicator_frequency=1)])
    kind('ties: EomiExtractor', lambda v: predicator.EomiExtractor(LRGraph(sents=verbs(v)), set(S[v::2]), {'나무', '보고'}, min_num_of_features=1, verbose=False), lambda o, v: [o.extract(min_eomi_score=0.2), dict(o.lrgraph.to_EojeolCounter().items())])
    kind('ties: StemExtractor', lambda v: predicator.StemExtractor(LRGraph(sents=verbs(v)), set(S[v::3]), set(E[v:]), min_num_of_unique_R_char=1, min_entropy_of_R_char=0.0, verbose=False), lambda o, v: o.extract(min_stem_score=0.1, min_stem_frequency=1))
    return out
