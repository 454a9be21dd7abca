"""P27: PredicatorExtractor."""
import itertools
from collections import defaultdict

from mc import conj, gen
from mc.core import Harness

PROP = dict(
    id='P27',
    title='The predicator extractor lemmatizes exactly the eojeols its dictionaries explain',
    statement=(
        'For all nouns, particles, stems, endings and corpora, the predicator extractor returns every eojeol of complete Hangul that occurs at least as often as the training and the extraction minimum say (or every given candidate), is not a noun followed by a particle, and is a conjugation of a dictionary stem and a dictionary ending that the lemmatizer recovers; it comes with its count and with all such stem and ending pairs, under verbs for verb stems and under adjectives for stems that are adjectives only. '
        'Nouns that are a stem without its last one (otherwise two) characters do not count as nouns. An ending of one or two characters is dropped where most two-syllable eojeols it explains are nouns: from all eojeols if it explains only two-syllable ones, otherwise from those nouns and, for two-character endings, from three-syllable eojeols. '
        'Sentences, an eojeol counter and an L-R graph of the same corpus give the same result, and the given counter, graph and dictionaries stay as they are.'),
    quantifier=dict(over=['inputs', 'configurations'], text='all dictionaries, corpora, thresholds and input kinds'),
    why_tests_cant='No test calls the predicator extractor at all.',
    anchors=dict(files=['soynlp/predicator/_predicator.py'],
                 mechanism=[dict(name='PredicatorExtractor.train / extract', where='soynlp/predicator/_predicator.py'),
                            dict(name='_as_lemma_candidates / _remove_wrong_eomis / _separate_adjective_verb', where='soynlp/predicator/_predicator.py')],
                 state=[dict(name='eojeol counter', meaning='eojeols and counts of the last training', where='soynlp/predicator/_predicator.py')],
                 observe_at=['train', 'extract', 'train_extract'], hook_needed=None))

CHECK = dict(
    technique='bounded-exhaustive enumeration of dictionaries x corpora x thresholds on the real extractor against a reference built on an independent conjugation model',
    level_note='All assignments of eight stems to verb/adjective/both/neither, all subsets of ten endings, all noun and particle subsets over eojeols generated by the conjugation model plus decoys, and all small count vectors for three input kinds.',
    assumptions=['only surfaces whose every analysis is recoverable (P23) are used', 'stem and ending extraction are off (endings: P35)'])


class Ref:
    def __init__(self, nouns, josas, adjectives, verbs, eomis):
        self.stems = set(adjectives) | set(verbs)
        self.verbs, self.eomis, self.josas = set(verbs), set(eomis), set(josas)
        drop = set()
        for s in self.stems:
            if s[:-1] in nouns:
                drop.add(s[:-1])
            elif s[:-2] in nouns:
                drop.add(s[:-2])
        self.nouns = set(nouns) - drop

    def lemmas(self, word, table):
        return {(s, e) for s, e in table.get(word, ()) if s in self.stems and e in self.eomis}

    def extract(self, counts, table):
        out = {}
        for w, c in counts.items():
            if any(w[:i] in self.nouns and w[i:] in self.josas for i in range(1, len(w))):
                continue
            ls = self.lemmas(w, table)
            if ls:
                out[w] = [c, ls]
        by = defaultdict(set)
        for w, (c, ls) in out.items():
            for s, e in ls:
                by[e].add(w)
            # an ending that explains an eojeol by two stems counts that eojeol twice
        drop = set()
        for e, ws in by.items():
            if len(e) >= 3:
                continue
            weight = lambda cond: sum(sum(1 for x in out[w][1] if x[1] == e) for w in ws if cond(w))
            two = weight(lambda w: len(w) == 2)
            noun2 = weight(lambda w: len(w) == 2 and w in self.nouns)
            if not two or noun2 / two < 0.5:
                continue
            all2 = all(len(w) == 2 for w in ws)
            for w in ws:
                if all2 or len(w) == 2 and w in self.nouns or len(w) == 3 and len(e) == 2:
                    drop.add((w, e))
        adj, verb = {}, {}
        for w, (c, ls) in out.items():
            ls = {x for x in ls if (w, x[1]) not in drop}
            v = {x for x in ls if x[0] in self.verbs}
            if v:
                verb[w] = (c, v)
            if ls - v:
                adj[w] = (c, ls - v)
        return adj, verb


STEMS = '가 먹 하 보 크 아프 있 늦 덥 모르 빨갛 놀 걷 지'.split()
EOMIS = ['고', '다', '는', '아', '어', '아서', '어서', '었다', '았다', 'ㄴ', 'ㄹ', '니', '은', '면', 'ㅂ니다', '지', '는데', 'ㄹ까']


def analyses(stems=STEMS, eomis=EOMIS):
    """surface -> all (stem, ending) that conjugate to it; only surfaces whose every analysis is recoverable"""
    table, bad = {}, set()
    for s in stems:
        for e in eomis:
            for rule, w in conj.rules(s, e):
                table.setdefault(w, set()).add((s, e))
                if not conj.invertible(rule, s, e, w):
                    table.setdefault(('?', w), set())
    for w in [k for k in table if isinstance(k, str)]:
        ok = set()
        for s, e in table[w]:
            if any(x == w and conj.invertible(rule, s, e, w) for rule, x in conj.rules(s, e)):
                ok.add((s, e))
        if ok != table[w]:
            bad.add(w)
    return {w: ls for w, ls in table.items() if isinstance(w, str) and w not in bad}


def harnesses(tier):
    from soynlp.predicator import PredicatorExtractor
    from soynlp.utils import EojeolCounter, LRGraph
    deep = tier == 'thorough'
    table = analyses()
    every = sorted(table)
    decoys = ['나무', '나무는', '고', '다', '하지만', '먹나', '가가', '쿵쾅', '보다는', '아프리카']

    def view(res):
        return tuple({w: (p.frequency, set(p.lemma)) for w, p in x.items()} for x in res)

    def build(counts, how):
        words = [w for w, c in counts.items() for _ in range(c)]
        sents = [' '.join(words[i::2]) for i in range(2)]
        if how == 'sents':
            return sents
        c = EojeolCounter(sents)
        return c if how == 'counter' else c.to_lrgraph()

    def large(counts):
        pairs = {}
        for w, c in counts.items():
            for i in range(1, len(w) + 1) if c else ():
                pairs.setdefault(w[:i], {})[w[i:]] = c
        return LRGraph(pairs)

    def contents(x):
        if isinstance(x, EojeolCounter):
            return dict(x.items()), len(x)
        if isinstance(x, LRGraph):
            return dict(x.to_EojeolCounter().items())
        return list(x)

    def one(nouns, josas, adjs, verbs, eomis, counts, rec, how='counter', min_e=1, min_p=1, cands=None, ex=None, table=table, verbose=False, big=False):
        args = [set(nouns), set(josas) or {'없'}, set(adjs), set(verbs), set(eomis)]
        keep = [set(a) for a in args]
        ex = ex or PredicatorExtractor(args[0], josas=args[1], adjectives=args[2], verbs=args[3], eomis=args[4], verbose=verbose)
        given = large(counts) if big else build(counts, how)
        before = contents(given)
        ref = Ref(nouns, josas, adjs, verbs, eomis)
        if cands is None:
            use = {w: c for w, c in counts.items() if c >= min_e and c >= min_p and c > 0 and all('가' <= ch <= '힣' for ch in w)}
        else:
            use = cands
        want = ref.extract(use, table)
        if cands is None:
            got = view(ex.train_extract(given, min_eojeol_frequency=min_e, min_predicator_frequency=min_p))
        else:
            ex.train(given, min_eojeol_frequency=min_e)
            got = view(ex.extract(cands, min_p))
        what = 'of %r with nouns=%r josas=%r adjectives=%r verbs=%r eomis=%r minimum=%r/%r input=%s' % (counts if len(counts) < 500 else '%d eojeols' % len(counts), sorted(nouns)[:500], sorted(josas), sorted(adjs), sorted(verbs), sorted(eomis), min_e, min_p, how)
        for name, g, w in zip(('adjectives', 'verbs'), got, want):
            rec.step()
            if g != w:
                diff = {k: (g.get(k), w.get(k)) for k in set(g) | set(w) if g.get(k) != w.get(k)}
                rec.fail('%s %s: implementation vs reference differ at %r' % (name, what, diff))
        rec.equal(contents(given), before, 'input after extracting ' + what)
        rec.equal(args, keep, 'dictionaries after extracting ' + what)
        rec.outcome((len(want[0]), len(want[1])))
        rec.trace()

    corpus = {w: 1 + i % 3 for i, w in enumerate(every + decoys)}
    roles = STEMS[:8] if deep else STEMS[:6]

    def run_stems(case, rec):
        for rest in itertools.product('vabn', repeat=len(roles) - len(case)):
            r = tuple(case) + rest
            adjs = {s for s, x in zip(roles, r) if x in 'ab'} | {'덥', '빨갛'}
            verbs = {s for s, x in zip(roles, r) if x in 'vb'} | {'모르', '놀'}
            rec.state(r)
            one({'나무'}, {'는'}, adjs, verbs, EOMIS, corpus, rec)
        rec.sample(case)

    some = EOMIS if deep else EOMIS[:12]

    def run_eomis(case, rec):
        for bits in itertools.product((0, 1), repeat=len(some) - len(case)):
            b = tuple(case) + bits
            es = {e for e, x in zip(some, b) if x} or {'지'}
            rec.state(b)
            one({'가고', '보고', '보는'}, {'도'}, {'크', '아프', '있', '늦'}, {'가', '먹', '보', '지'}, es, corpus, rec)
        rec.sample(case)

    noun_menu = ['가고', '먹고', '먹는', '보', '아프', '아', '나무', '늦', '가는', '보면', '지는', '하']
    words = [w for w in every if len(w) == 2] + [w for w in every if len(w) == 3][:20] + [w for w in every if len(w) > 3][:4] + ['나무', '나무는', '보도', '하는도']
    small = dict.fromkeys(words, 2)

    def run_nouns(case, rec):
        josas, first = case
        for bits in itertools.product((0, 1), repeat=len(noun_menu) - len(first)):
            ns = {n for n, x in zip(noun_menu, tuple(first) + bits) if x}
            rec.state((tuple(josas), frozenset(ns)))
            one(ns, set(josas), {'크', '아프', '늦'}, {'가', '먹', '하', '보', '지'}, {'고', '는', '면', '다', '아서', '어서', 'ㄴ', '는데'}, small, rec)
        rec.sample(case)

    few = ['가고', '먹는', '먹고', '보고', '큰', '아프다']
    few = [w for w in few if w in table] + ['ab가고', 'ㅋㅋ가고', '가는']

    def run_counts(case, rec):
        how, min_e, min_p, first = case
        shared = PredicatorExtractor({'책'}, josas={'도'}, adjectives={'크', '아프'}, verbs={'가', '먹', '보'}, eomis={'고', '는', 'ㄴ', '다'}, verbose=False)
        for v in itertools.product(range(4), repeat=5 if deep else 4):
            v = tuple(first) + v
            counts = dict(zip(few, v))
            rec.state((how, min_e, min_p, v))
            if any(v):
                # trained again and again: the extractor forgets the previous corpus
                one({'책'}, {'도'}, {'크', '아프'}, {'가', '먹', '보'}, {'고', '는', 'ㄴ', '다'}, counts, rec, how, min_e, min_p, ex=shared)
                cands = {w: c + 1 for w, c in counts.items() if c % 2 and all('가' <= ch <= '힣' for ch in w)}
                if cands:
                    one({'책'}, {'도'}, {'크', '아프'}, {'가', '먹', '보'}, {'고', '는', 'ㄴ', '다'}, counts, rec, how, min_e, min_p, cands=cands)
        rec.sample(case)

    # surfaces with two analyses: different stems, different endings, stems of either kind
    amb_stems = ['걷', '걸', '묻', '물', '이르', '일', '가', '갈', '크', '커']
    amb_eomis = ['어', '어서', '었다', '러', '으면', '면', '고', 'ㄴ', 'ㄹ', '다']
    amb = analyses(amb_stems, amb_eomis)
    few_amb = sorted(w for w in amb if len(amb[w]) > 1) + ['가고', '크다', '커고', '일고', '이르고', '걷다', '물면']
    vary = 8 if deep else 6

    def run_ambiguous(case, rec):
        for rest in itertools.product('vabn', repeat=vary - len(case)):
            r = tuple(case) + rest + (() if deep else ('v', 'a'))
            adjs = {s for s, x in zip(amb_stems, r) if x in 'ab'} | {'크'}
            verbs = {s for s, x in zip(amb_stems, r) if x in 'vb'} | {'커'}
            rec.state(r)
            one({'나무'}, {'는'}, adjs, verbs, amb_eomis, {w: 1 + i % 3 for i, w in enumerate(few_amb)}, rec, table=amb)

    # endings that mostly explain nouns: small corpora in which either side can win
    d_stems = ['가', '보', '먹', '나가', '돌보', '찾아가', '크']
    d_eomis = ['고', '는데', '면', 'ㄴ', '아서', '니까']
    dtable = analyses(d_stems, d_eomis)
    d_words = [['가고', '보고', '먹고', '나가고', '찾아가고'], ['가면', '보면', '나가면', '돌보면'], ['간', '본', '나간', '큰'], ['가는데', '보는데', '나가는데', '크는데'], ['가서', '나가서', '찾아가서', '가고'], ['가니까', '보니까', '가니', '간', '크니까']]
    d_words = [[w for w in g if w in dtable] for g in d_words]

    def run_doubtful(case, rec):
        g, present = case
        ws = [w for w, x in zip(d_words[g], present) if x]
        for others in itertools.product((0, 1), repeat=2):
            counts = {w: 1 + i for i, w in enumerate(ws)}
            for i, o in enumerate(others):
                if o:
                    counts[d_words[(g + 1 + i) % len(d_words)][0]] = 2
            if not counts:
                continue
            for bits in itertools.product((0, 1), repeat=len(counts)):
                ns = {w for w, b in zip(counts, bits) if b}
                rec.state((tuple(sorted(counts)), frozenset(ns)))
                for verbs in (d_stems, d_stems[::2]):
                    one(ns, {'도'}, {'크'}, set(verbs), d_eomis, counts, rec, table=dtable)

    # two-character endings that mostly explain nouns, and eojeols that another ending explains too
    e_stems = ['보', '봐', '오', '돌보', '돌봐', '막', '살펴보']
    e_table = analyses(e_stems, ['아서', '서', '아도', '도'])
    e_words = [w for w in ['봐서', '와서', '돌봐서', '막아서', '막서', '봐도', '돌봐도', '살펴봐서'] if w in e_table]

    def run_long_doubt(case, rec):
        for present in itertools.product((0, 1), repeat=len(e_words) - len(case)):
            ws = [w for w, x in zip(e_words, tuple(case) + present) if x]
            for bits in itertools.product((0, 1), repeat=len(ws)):
                ns = {w for w, b in zip(ws, bits) if b}
                for verbs in (e_stems, [s for s in e_stems if s[-1] != '봐'], e_stems[1::2] + ['오'])[:3 if deep else 2]:
                    if not ws:
                        continue
                    rec.state((tuple(ws), frozenset(ns), len(verbs)))
                    one(ns, {'는'}, {'크', '막'}, set(verbs), ['아서', '서', '아도', '도'], dict.fromkeys(ws, 2), rec, table=e_table)

    # a noun that is a stem without its last one or two characters, stems of every length
    p_stems = ['하', '공하', '공부하', '공부장하', '공부장소하', '공']
    ptable = analyses(p_stems, ['고', '는', '다', '장'])

    def run_prefixes(case, rec):
        nouns = ['공', '공부', '공부장', '공부장소', '하', '공하']
        for bits in itertools.product((0, 1), repeat=6):
            ns = {n for n, b in zip(nouns, bits) if b}
            for josas in ({'고'}, {'하고', '부하고'}, {'장하고', '하다', '는'}):
                stems = {s for s, b in zip(p_stems, case) if b} or {'크'}
                rec.state((frozenset(stems), frozenset(ns), frozenset(josas)))
                one(ns, josas, {'크'}, stems, ['고', '는', '다'], {w: 1 for w in sorted(ptable)}, rec, table=ptable)

    # -- thousands of eojeols and stems, counts over six orders of magnitude, messages on
    syl = '나다라마바사아자차카타파거너더러머버서어저처커터퍼허'
    l_stems = [a + b for a in syl for b in syl[:12] if a != b] + [a + b + '하' for a in syl[:12] for b in syl[12:]]
    l_eomis = ['고', '다', '는', '은', '니', '면', '지', '는데', '더라', '네요', '라고', '다가']
    l_table = {}

    def run_scale(case, rec):
        kind, variant, verbose = case
        if kind == 'many':
            if not l_table:
                l_table.update(analyses(l_stems, l_eomis))
            counts = {w: 1 + (i * 7 + variant) % 12 for i, w in enumerate(sorted(l_table))}
            counts.update({'쀍' + w[::-1]: 1 + i % 4 for i, w in enumerate(sorted(l_table)[::3])})
            nouns = set(sorted(counts)[::40 + variant]) | {w[:-1] for w in sorted(l_table)[5::90]} | {s[:-1] for s in l_stems[::17]}
            for how, me, mp in (('graph', 1, 1), ('counter', 4, 7), ('sents', 3, 1)):
                rec.state((kind, variant, how))
                one(nouns, {'고', '지', '는'}, set(l_stems[::3 + variant]), set(l_stems[::2]), l_eomis, counts, rec, how, me, mp, table=l_table, verbose=verbose)
        elif kind == 'counts':
            words = [w for w in every if len(w) in (2, 3)][::7][:8]
            for exps in itertools.product((0, 3, 6), repeat=4):
                counts = {w: (2 + i + variant) * 10 ** exps[(i + variant) % 4] for i, w in enumerate(words)}
                for me, mp in ((1, 1), (10 ** 3, 1), (1, 3 * 10 ** 3), (5, 10 ** 6)):
                    rec.state((kind, variant, exps, me, mp))
                    one({'가고', words[0]}, {'도'}, {'크', '아프', '있', '늦'}, {'가', '먹', '보', '지'}, EOMIS, counts, rec, 'graph', me, mp, verbose=verbose, big=True)
        else:
            # an ending shared by thousands of eojeols, half of them nouns or just not
            if not l_table:
                l_table.update(analyses(l_stems, l_eomis))
            ws = sorted(w for w in l_table if any(e == '고' for _, e in l_table[w]))
            twos = ['가' + '고', '보고', '크고', '늦고', '놀고', '걷고', '지고', '먹고', '하고', '있고']
            both = analyses(l_stems + STEMS, l_eomis)
            ws += [w for w in twos if w in both]
            for k in range(len(twos) + 1):
                rec.state((kind, variant, k))
                one(set(twos[:k]), {'도'}, set(l_stems[::5]) | {'크', '늦'}, set(l_stems) | set(STEMS), ['고', '는데'], {w: 1 + (i + variant) % 3 for i, w in enumerate(ws)}, rec, 'graph', table=both, verbose=verbose)
        rec.sample(case)

    # -- nouns, particles, stems and endings of every length
    def run_long(case, rec):
        kind, n = case
        syl_ = '나다라마바사자차카타파허너더러머버저처커터퍼'
        if kind == 'noun':
            for j in ('고', '고서는', '고도만은이라'):
                for stem in (syl_[n - 1], syl_[:n][-2:], syl_[:n], syl_[n:n + 2]):
                    t = analyses([stem, syl_[:n], '가'], [j, '고'])
                    word = syl_[:n] + j
                    for has in (0, 1):
                        for josas in ({j}, {'는'}):
                            rec.state((kind, n, j, stem, has))
                            one({syl_[:n]} if has else set(), josas, {'크'}, {stem, syl_[:n]}, [j], {word: 3, syl_[:n]: 2, stem + j: 1}, rec, table=t, big=True)
        else:
            eomi = ('더라고요만도는지라서야' * 2)[:n]
            for k in range(1, 13):
                stem = syl_[:k]
                t = analyses([stem, '가'], [eomi, eomi[:-1] or '고'])
                word = stem + eomi
                counts = {word: 3, '가' + eomi: 1, stem + eomi[:-1] + '고': 2}
                for nouns, josas in (((), {'를'}), ((stem[:1] + '하', stem), {'를', eomi}), ((word[:-1],), {word[-1]})):
                    for es in ([eomi], [eomi, '고']):
                        rec.state((kind, n, k, tuple(nouns), len(es)))
                        t2 = analyses([stem, '가'], es)
                        one(set(nouns), josas, {'크'}, {stem, '가'}, es, counts, rec, table=t2, big=True)

    # -- sentences are counted as an eojeol counter with the same options counts them
    def run_counting(case, rec):
        me, check, norm = case
        from soynlp.normalizer import normalize_sent_for_lrgraph
        ws = ['가고', '먹는', '가고', '보고', '먹고,', '큰', '가고.', '12가고', '아프다', '먹는']
        args = dict(josas={'도'}, adjectives={'크', '아프'}, verbs={'가', '먹', '보'}, eomis={'고', '는', 'ㄴ', '다'}, verbose=False)
        for v in itertools.product((0, 1, 3), repeat=6):
            sents = [' '.join(ws[(i + j) % 10] for j in range(2 + i % 3)) for i, c in enumerate(v) for _ in range(c)]
            if not sents:
                continue
            counter = EojeolCounter(sents, min_count=me, filtering_checkpoint=check, **({} if norm else dict(preprocess=normalize_sent_for_lrgraph)))
            a = view(PredicatorExtractor({'책'}, ensure_normalized=norm, **args).train_extract(sents, min_eojeol_frequency=me, filtering_checkpoint=check))
            b = view(PredicatorExtractor({'책'}, **args).train_extract(counter, min_eojeol_frequency=me))
            rec.step()
            rec.state((tuple(case), v))
            rec.equal(a, b, 'predicators of sentences %r with min_eojeol_frequency=%r, checkpoint=%r, ensure_normalized=%r, against those of the same counter' % (sents, me, check, norm))
        rec.trace()
        rec.outcome('ok')

    return [
        Harness('long', run_long, [[k, n] for k in ('noun', 'ending') for n in range(1, 15)], about='nouns of 1-14 and endings of 1-14 syllables with stems of 1-12', bound='every length'),
        Harness('scale', run_scale, [[k, v, g] for k in ('many', 'counts', 'ending') for v in range(2 if not deep else 8) for g in (False, True)], about='450 stems, 5,000 analysable and 1,700 other eojeols; counts over six orders of magnitude; one ending of 450 eojeols; messages on and off', bound='4 large corpora x 3 input kinds, 81 count vectors x 4 minima'),
        Harness('counting', run_counting, [[m, c, n] for m in (1, 2, 4) for c in (100000, 2) for n in (False, True)], about='sentences with every minimum count, checkpoint and normalization, against an eojeol counter made with the same options', bound='3^6 corpora'),
        Harness('ambiguous', run_ambiguous, [list(t) for t in itertools.product('vabn', repeat=3)], chunk=2, about='every role of eight stems whose surfaces coincide', bound='4^%d' % vary),
        Harness('doubtful endings', run_doubtful, [[g, list(b)] for g in range(len(d_words)) for b in itertools.product((0, 1), repeat=len(d_words[g]))], chunk=2, about='every choice of eojeols for an ending and of nouns among them', bound='%d groups' % len(d_words)),
        Harness('doubtful long endings', run_long_doubt, [list(b) for b in itertools.product((0, 1), repeat=4)], chunk=1, about='every choice of eojeols with two-character endings, some explained by two endings, and of nouns among them', bound='3^8 x %d stem sets' % (3 if deep else 2)),
        Harness('stem prefixes', run_prefixes, [list(b) for b in itertools.product((0, 1), repeat=6)], about='every set of nested stems x nested nouns x particles', bound='2^6 x 2^6 x 3'),
        Harness('stems', run_stems, [list(t) for t in itertools.product('vabn', repeat=4 if deep else 3)], about='every role (verb, adjective, both, none) of %d stems' % len(roles), bound='4^%d dictionaries x %d eojeols' % (len(roles), len(corpus))),
        Harness('endings', run_eomis, [list(t) for t in itertools.product((0, 1), repeat=8 if deep else 6)], about='every subset of %d endings, with nouns that make some endings doubtful' % len(some), bound='2^%d' % len(some)),
        Harness('nouns', run_nouns, [[j, list(t)] for j in ([], ['도'], ['는', '는데'], ['고', '도']) for t in itertools.product((0, 1), repeat=5)], about='every noun subset x particle sets: noun+particle filter, stem prefixes, doubtful endings', bound='2^12 x 4'),
        Harness('counts', run_counts, [[h, e, p, list(f)] for h in ('sents', 'counter', 'graph') for e in (1, 2, 3) for p in (1, 2, 3) for f in itertools.product((0, 1, 2), repeat=2)], about='all count vectors x both minimum frequencies x input kinds, with and without given candidates', bound='counts 0..3'),
    ]
