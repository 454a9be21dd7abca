"""P26: instances do not interfere."""
import itertools
import json
import os
import signal

from mc import core, kinds
from mc.core import Harness

PROP = dict(
    id='P26',
    title='Objects are independent of each other, and inputs are left alone',
    statement=(
        'Whatever two objects of the package do (tokenizers, taggers, dictionaries, counters, graphs, extractors, vectorizers, lemmatizers, stateless functions; of one class or of two), in whatever order their constructions, trainings, modifications and queries are interleaved, each gives the results it gives when it is alone in a fresh process: nothing leaks through classes, default arguments, module variables or shared inputs. '
        'A second object after a first one starts afresh, and no call changes the texts, word sets, score tables and candidate lists it was given. '
        'What a call returns belongs to the caller: changing it (the lists, sets, dictionaries and matrices inside too) changes no later answer.'),
    quantifier=dict(over=['histories', 'schedules'], text='all interleavings of the histories of two objects, all pairs of components'),
    why_tests_cant='Tests use one object at a time, each in the one order written down.',
    anchors=dict(files=['soynlp/tokenizer', 'soynlp/postagger', 'soynlp/noun', 'soynlp/word', 'soynlp/vectorizer', 'soynlp/utils', 'soynlp/lemmatizer', 'soynlp/predicator', 'soynlp/normalizer', 'soynlp/hangle', 'soynlp/pos'],
                 mechanism=[dict(name='constructors and training methods', where='soynlp')],
                 state=[dict(name='instance attributes', meaning='everything a component remembers', where='soynlp')],
                 observe_at=['results of all public components'], hook_needed=None))

CHECK = dict(
    technique='exhaustive enumeration of the interleavings of two object histories on the real classes, every result compared with the one of a single history in a fresh process',
    level_note='Same class: all interleavings of two histories of up to 6 operations each; different classes: every pair, with the second history inserted at every point of the first.',
    assumptions=['the results alone in a fresh process are taken as the reference; the other properties judge them'])


def alone(names, timeout=120):
    """{name: [per variant [results]]} from one forked process per kind."""
    out = {}
    for name in names:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                signal.alarm(timeout)
                dn = os.open(os.devnull, os.O_WRONLY)
                os.dup2(dn, 1)
                k = {k.name: k for k in kinds.kinds()}[name]
                res = []
                for v in range(3):
                    r2, w2 = os.pipe()
                    p2 = os.fork()
                    if p2 == 0:
                        try:
                            o = k.make(v)
                            line = repr([f(o) for _, f in k.steps(v)])
                        except BaseException as e:
                            line = 'raised %r' % (e,)
                        with os.fdopen(w2, 'w', encoding='utf8') as f:
                            f.write(line)
                        os._exit(0)
                    os.close(w2)
                    with os.fdopen(r2, encoding='utf8') as f:
                        res.append(f.read())
                    os.waitpid(p2, 0)
                with os.fdopen(w, 'w', encoding='utf8') as f:
                    json.dump(res, f)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        with os.fdopen(r, encoding='utf8') as f:
            text = f.read()
        os.waitpid(pid, 0)
        try:
            out[name] = json.loads(text)
        except ValueError:
            out[name] = ['no result'] * 3
    return out


def harnesses(tier):
    deep = tier == 'thorough'
    ks = {k.name: k for k in kinds.kinds()}
    names = list(ks)
    want = alone(names)
    inputs = repr((kinds.SENTS, kinds.TEXTS))

    def play(case, rec, a, b, order):
        """order: sequence of 0/1, whose next operation it is"""
        runs = []
        for name, v in (a, b):
            k = ks[name]
            runs.append(dict(k=k, v=v, ops=[None] + [f for _, f in k.steps(v)], obj=None, i=0, res=[]))
        for who in order:
            x = runs[who]
            if x['i'] == 0:
                x['obj'] = x['k'].make(x['v'])
            else:
                x['res'].append(x['ops'][x['i']](x['obj']))
            x['i'] += 1
            rec.step()
        for (name, v), x in zip((a, b), runs):
            if repr(x['res']) != want[name][v]:
                labels = [l for l, _ in ks[name].steps(v)]
                alone_ = want[name][v]
                rec.fail('%s (variant %d) with operations %r gives other results when interleaved with %s as %r: %s, alone %s' % (
                    name, v, labels, (b if x is runs[0] else a), order, core.short(x['res']), core.short(alone_)))
        rec.check(repr((kinds.SENTS, kinds.TEXTS)) == inputs, 'the input texts changed during %s and %s', a, b)

    def size(name, v):
        return 1 + len(ks[name].steps(v))

    def interleavings(n, m):
        for c in itertools.combinations(range(n + m), n):
            s = set(c)
            yield [0 if i in s else 1 for i in range(n + m)]

    def run_same(case, rec):
        name, v, w = case
        n, m = size(name, v), size(name, w)
        todo = list(interleavings(n, m))
        if ks[name].heavy:
            todo = [o for o in todo if sum(x != y for x, y in zip(o, o[1:])) <= (2 if deep else 1)]
        elif not deep and n + m > 10:
            todo = [o for o in todo if sum(x != y for x, y in zip(o, o[1:])) <= 4]
        for order in todo:
            rec.state((name, v, w, tuple(order)))
            play(case, rec, (name, v), (name, w), order)
            rec.trace()
        rec.outcome(name)
        rec.sample(case)

    def forked(fn):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                dn = os.open(os.devnull, os.O_WRONLY)
                os.dup2(dn, 1)
                try:
                    line = fn()
                except BaseException as e:
                    line = ['raised %r' % (e,)]
                with os.fdopen(w, 'w', encoding='utf8') as f:
                    json.dump(line, f)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, encoding='utf8') as f:
            text = f.read()
        os.waitpid(pid, 0)
        return json.loads(text)

    def run_results(case, rec):
        # what a call returns belongs to the caller: changing it changes no later answer, of this object or another
        name, v, order = case
        k = ks[name]

        def run(spoil):
            kinds.SPOIL[0] = spoil
            out = []
            for turn in (1, 2):
                o = k.make(v)
                steps, queries = k.steps(v), k.queries(v)
                todo = steps if order == 'steps' else [x for q in queries for x in (q, q)] if order == 'each twice' else queries + queries[::-1]
                out += [(label, repr(f(o))) for label, f in todo]
            return out
        a, b = forked(lambda: run(False)), forked(lambda: run(True))
        rec.step(len(a) + len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            rec.check(x == y, '%s (variant %d), call %d (%s): the result is %s, and %s after the caller changed the results of the earlier calls (%s)', name, v, i, x[0], core.short(x[1]), core.short(y[1]), [l for l, _ in a[:i]])
        rec.check(len(a) == len(b), '%s: %s and %s', name, core.short(a), core.short(b))
        rec.state((name, v, order))
        rec.outcome(name)
        rec.trace()

    def run_pairs(case, rec):
        a, = case
        for b in names:
            if b == a or ks[b].heavy and not deep and ks[a].heavy:
                continue
            for v, w in ((0, 1), (2, 0)) if deep else ((names.index(b) % 3, (names.index(a) + 1) % 3),):
                n, m = size(a, v), size(b, w)
                cuts = [n // 2] if (ks[a].heavy or ks[b].heavy) and not deep else range(n + 1)
                for cut in cuts:
                    order = [0] * cut + [1] * m + [0] * (n - cut)
                    rec.state((a, b, v, w, cut))
                    play(case, rec, (a, v), (b, w), order)
                    rec.trace()
        rec.outcome(a)

    def cases():
        import numpy as np
        import scipy.sparse as sp
        from soynlp import hangle, lemmatizer, postagger, predicator, tokenizer, utils, vectorizer, word
        from soynlp.noun import LRNounExtractor, LRNounExtractor_v2, NewsNounExtractor, extract_domain_pos_features
        from soynlp.utils import EojeolCounter, LRGraph
        S = lambda: {'가나': 0.9, '다라': 0.8, '가': 0.5}
        T = ['가나다라 다라가나', '가나는 마바 다라다라']
        verbs = ['가고 가는 먹고 먹는 크고 큰 책도', '보고 먹었다 크다 책 아프다']

        def many(o, fs):
            for f in fs:
                f(o)

        def graph(lr, sents):
            g = LRGraph(lrgraph=lr) if lr else LRGraph(sents=sents)
            g.add_eojeol('가나다', 3)
            g.remove_eojeol('가나', 9)
            g.get_r('가', -1).clear()
            g.reset_lrgraph()
            g.add_lr_pair('가', '나', 5)
            g.to_EojeolCounter().remove_covered_eojeols({'가나'})

        def dictionary(d):
            o = postagger.Dictionary(d)
            o.add_words('Noun', ['새말'])
            o.add_words('New', {'a'}, force=True)
            o.remove_words('Noun', {'가나'})
            o.remove_words('Josa')

        def added(words):
            o = postagger.Dictionary({'Noun': {'a'}})
            o.add_words('Noun', words)
            o.add_words('X', words, force=True)
            o.remove_words('X', {'가'})
            o.add_words('X', ['b'])

        def tagger(d, pref, weights, tags, templates):
            dic = postagger.Dictionary(d)
            o = postagger.SimpleTagger(postagger.LRTemplateMatcher(dic, ltags=tags, templates=templates), postagger.LREvaluator(weights=weights, preference=pref), postagger.UnknowLRPostprocessor())
            for t in T:
                o.tag(t)
            o.dictionary.add_words('Noun', ['다라다'])
            o.tag(T[0])

        def pred(*a):
            o = predicator.PredicatorExtractor(a[0], josas=a[1], adjectives=a[2], verbs=a[3], eomis=a[4], verbose=False)
            o.train(a[5], min_eojeol_frequency=1)
            o.extract(min_predicator_frequency=1)
            o.extract(a[6], 1)
            o.train_extract(EojeolCounter(a[5]), min_eojeol_frequency=1)

        def pred_eomi(*a):
            o = predicator.PredicatorExtractor(a[0], josas=a[1], adjectives=a[2], verbs=a[3], eomis=a[4], verbose=False, extract_eomi=True)
            o.train(a[5], min_eojeol_frequency=1)
            o.extract(min_predicator_frequency=1)

        def v1(sents, cands):
            o = LRNounExtractor(verbose=False)
            o.train(sents, 1)
            o.extract(0.1, 1, cands)
            o.extract(0.1, 1)

        def v2(sents, cands, ignore):
            o = LRNounExtractor_v2(verbose=False)
            o.train(sents)
            o.extract_domain_pos_features(cands, ignore_features=ignore)
            o.extract()

        def news(sents, base):
            o = NewsNounExtractor(verbose=False, base_noun_dictionary=base)
            o.train(sents)
            o.extract(min_noun_score=0.1, min_frequency=1)

        def vec(docs):
            o = vectorizer.BaseVectorizer(verbose=False)
            o.fit_transform(docs)
            o.transform(docs)
            bow, lst = o.encode_a_doc_to_bow(docs[0]), o.encode_a_doc_to_list(docs[0])
            keep = repr((bow, lst))
            o.decode_from_bow(bow)
            o.decode_from_list(lst)
            rec_check(repr((bow, lst)) == keep)

        def rec_check(ok):
            if not ok:
                raise AssertionError('decoding changed its input')

        def words(sents):
            o = word.WordExtractor(min_frequency=1, verbose_points=0)
            o.train(sents)
            o.train(sents)
            o.extract(o.word_scores())
            s = o.word_scores()
            keep = repr(s)
            o.extract(s)
            if repr(s) != keep:
                raise AssertionError('extract() changed the scores it was given')

        X = lambda: sp.csr_matrix(np.array([[1., 2, 0], [0, 3, 1], [4, 0, 1]]))
        yield 'LTokenizer', [S()], lambda s: many(tokenizer.LTokenizer(scores=s), [lambda o: [o.tokenize(t, tolerance=0.2) for t in T]])
        yield 'MaxScoreTokenizer', [S()], lambda s: many(tokenizer.MaxScoreTokenizer(scores=s), [lambda o: [o.tokenize(t, flatten=False) for t in T]])
        yield 'MaxLRScoreTokenizer', [S(), {'는': 0.5, '라': 2}], lambda a, b: many(tokenizer.MaxLRScoreTokenizer(Dl=a, Dr=b), [lambda o: [o.tokenize(t) for t in T]])
        yield 'NounLMatchTokenizer', [S()], lambda s: many(tokenizer.NounLMatchTokenizer(s), [lambda o: [o.tokenize(t, compose_compound=c) for t in T for c in (True, False)]])
        yield 'NounMatchTokenizer', [S()], lambda s: many(tokenizer.NounMatchTokenizer(s), [lambda o: [o.tokenize(t, compose_compound=c) for t in T for c in (True, False)]])
        yield 'Dictionary', [{'Noun': {'가나', '다라'}, 'Josa': {'는'}}], dictionary
        yield 'Dictionary with lists', [{'Noun': ['가나', '다라'], 'Josa': ['는']}], dictionary
        yield 'Dictionary.add_words', [{'가', '나'}], added
        yield 'Dictionary.add_words with a list', [['가', '나', '가']], added
        yield 'SimpleTagger', [{'Noun': {'가나', '다라'}, 'Josa': {'는'}}, {'Noun': {'가나': 1}}, [('is_noun_phrase', 0.3), ('lr_are_known', 0.15), ('is_verb', 0.2), ('is_adjective', 0.1), ('l_len', 0.1), ('r_len', 0.1), ('l_is_a_syllable', -0.2)], ['Noun', 'Verb'], {'Noun': ('Josa',)}], tagger
        yield 'LRGraph', [{'가': {'나': 2, '': 1}, '가나': {'': 2}}, None], graph
        yield 'LRGraph of sentences', [None, ['가나 가나다', '가나']], graph
        yield 'EojeolCounter', [['가나 다', '가나']], lambda s: many(EojeolCounter(s), [lambda o: o.remove_covered_eojeols({'다'}), lambda o: o.to_lrgraph().add_eojeol('나')])
        yield 'covered eojeols', [{'다': 1, '라': 2}], lambda s: EojeolCounter(['가 다 라']).remove_covered_eojeols(s)
        yield 'PredicatorExtractor', [{'책'}, {'도'}, {'크', '아프'}, {'가', '먹', '보'}, {'고', '는', 'ㄴ', '다', '었다'}, list(verbs), {'가고': 3, '큰': 2, '책도': 1}], pred
        yield 'PredicatorExtractor with endings', [{'책'}, {'도'}, {'크', '아프'}, {'가', '먹', '보'}, {'고', '는', 'ㄴ', '다', '었다'}, list(verbs)], pred_eomi
        yield 'EomiExtractor', [{'가', '먹', '크'}, {'책'}], lambda s, n: predicator.EomiExtractor(LRGraph(sents=verbs), s, n, min_num_of_features=1, verbose=False).extract(min_eomi_score=0.1)
        yield 'StemExtractor', [{'가', '먹'}, {'고', '는'}, {'책'}], lambda s, e, i: predicator.StemExtractor(LRGraph(sents=verbs), s, e, min_num_of_unique_R_char=1, min_entropy_of_R_char=0, verbose=False).extract(i, 0.1, 1)
        yield 'Lemmatizer', [{'가', '먹'}, {'고', '었다'}, {'그래': ('그렇다',), '퍼': ('푸다',)}], lambda s, e, p: many(lemmatizer.Lemmatizer(s, e, p), [lambda o: o.lemmatize('먹었다'), lambda o: o.candidates('그래'), lambda o: o.lemmatize('가고', check_only_stem=True)])
        yield 'LRNounExtractor', [['노래가 노래를 노래는', '학교가 학교를'], {'노래': 3, '학교': 2}], v1
        yield 'LRNounExtractor_v2', [['노래가 노래를 노래는', '학교가 학교를'], {'노래': 3, '학교': 2}, {'가'}], v2
        yield 'NewsNounExtractor', [['노래가 노래를 노래는', '학교가 학교를'], {'노래', '학교'}], news
        yield 'domain features', [{'가나': (5, 1), '다라': (5, 1)}, {'에'}, {'은'}], lambda p, k, i: extract_domain_pos_features(p, LRGraph(lrgraph={'가나': {'은': 3, '에': 2}, '다라': {'은': 4, '물': 1}}), k, i, min_noun_frequency=1, min_pos_feature_frequency=1, min_num_of_unique_lastchar=1, min_entropy_of_lastchar=0, min_noun_entropy=0)
        yield 'WordExtractor', [['가나 다라', '가나다 라', '가나 가나']], words
        yield 'Bigram', [['가나 다라 가나', '가나 다라']], lambda s: many(word.Bigram(s, min_frequency=1, verbose=False), [lambda o: o.extract(), lambda o: o.train(s)])
        yield 'BaseVectorizer', [['가나 다라 가나', '가나 다라 없']], vec
        yield 'word contexts', [['가나 다라 가나', '가나 다라']], lambda s: vectorizer.sent_to_word_contexts_matrix(s, windows=2, min_tf=1, verbose=False)
        for kw in ({}, dict(min_pmi=-1), dict(alpha=0.5, beta=0.75)):
            yield 'pmi %r' % kw, [X(), np.array([[0.25, 0.5, 0.25]])], lambda x, py, kw=kw: [word.pmi(x, **kw), word.pmi(x, py=py, **kw)]
        yield 'most_similar', [np.array([[1., 2], [0, 1], [-1, 1]]), {'a': 0, 'b': 1, 'c': 2}, ['a', 'b', 'c']], lambda x, i, j: utils.most_similar('b', x, i, j, topk=2)
        yield 'most_similar in a sparse matrix', [X(), {'a': 0, 'b': 1, 'c': 2}, ['a', 'b', 'c']], lambda x, i, j: utils.most_similar('b', x, i, j, topk=2)
        yield 'levenshtein', [{('가', '나'): 0.5}], lambda c: [hangle.levenshtein('가나', '나가', c), hangle.levenshtein('가', '나', c)]
        yield 'check_corpus', [['a', 'b']], lambda c: utils.check_corpus(c)

    import copy
    inputs_of = list(cases())

    def run_inputs(case, rec):
        label, args, use = inputs_of[case]
        given = copy.deepcopy(args)
        for times in (1, 2):
            use(*given)
            for i, (g, a) in enumerate(zip(given, args)):
                rec.step()
                rec.check(type(g) == type(a) and core.same(g, a) and repr(type(g)) == repr(type(a)) and (not isinstance(a, dict) or list(g) == list(a)),
                          '%s: argument %d was %s before and is %s after %d uses', label, i, core.short(a), core.short(g), times)
        rec.state(label)
        rec.outcome(label)
        rec.trace()

    same = [[n, v, w] for n in names for v in range(3) for w in range(3)]
    return [
        Harness('inputs', run_inputs, list(range(len(inputs_of))), chunk=4, about='arguments of every component before and after use', bound='%d components' % len(inputs_of)),
        Harness('results', run_results, [[n, v, o] for n in names for v in range(3) for o in ('steps', 'each twice', 'there and back') if o == 'steps' or ks[n].queries(v)], chunk=4, about='every history while the caller changes every result it gets (lists, sets, dicts, matrices, inside too)', bound='all components x 3 variants x 3 orders, on two objects'),
        Harness('same class', run_same, same, chunk=1, about='two objects of one class, all interleavings of their histories', bound='up to 7 operations each (quick: up to 4 switches if more than 10 in all); objects that take long to build: up to 1 (thorough 2) switches'),
        Harness('two classes', run_pairs, [[n] for n in names], chunk=1, about='a history inserted into another at every point', bound='all ordered pairs of %d components' % len(names)),
    ]
