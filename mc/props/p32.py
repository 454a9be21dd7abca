"""P32: the part-of-speech extractors."""
import contextlib
import io
import itertools
from collections import defaultdict

from mc import gen, hangul
from mc.core import Harness

PROP = dict(
    id='P32',
    title='POS extractors account for every eojeol with the right words and counts',
    statement=(
        'For every eojeol count and every set of known nouns, predicators (with lemmas), stems, endings, particles and adverbs, NewsPOSExtractor and ChatPOSExtractor analyse each eojeol by the first stage that applies and count the words in it: it is a known word; a noun seen as an eojeol (two or more characters, shortest first) + particle, or + adjective or verb seen as an eojeol (every kind that matches is counted); '
        'a known predicator (two or more characters, shortest first) + known predicator, whose lemmas are those of the second with the first before the stem, without stems already known and without impossible stem-ending joints; a form that lemmatizes to known stem + known ending (all such pairs of the cut furthest right); a one-character noun + particle, adjective or verb found before. '
        'Then particles, endings and single characters are set aside, and (news) an eojeol made only of nouns of two or more characters, as MaxScoreTokenizer cuts it, is a compound noun, without its last part if it has three or more parts and that is a word found, which need then not be a noun. All other eojeols are Irrecognizable with their count. '
        'Chat uses the chat particles, drops from Eomi the endings found in more compounds than other predicators and compounds whose stem is followed by consonant-initial (lone jamo) endings at least 90 %% of the time, and has no compound nouns. Nouns that are also predicators or adverbs (chat: also nouns of three or more characters that end in a word found) are ConfusedNouns and not Noun. Stems of compounds are listed with the other stems; adverbs include the default ones and 히-forms of 하-stems. '
        'Training uses LRNounExtractor_v2 (without compounds) for the nouns and PredicatorExtractor for the predicators, and forgets the previous corpus.').replace('%%', '%'),
    quantifier=dict(over=['inputs', 'configurations', 'histories'], text='all eojeol counts, all sets of known words, all orders of trainings'),
    why_tests_cant='No test runs the POS extractors; the stages interact through the counters they share, so an error shows only for some combination of known words and eojeols.',
    anchors=dict(files=['soynlp/pos/_news_pos.py', 'soynlp/pos/_chat_pos.py', 'soynlp/pos/_adverb.py'],
                 mechanism=[dict(name='extract', where='soynlp/pos/_news_pos.py'), dict(name='_count_matched_patterns', where='soynlp/pos/_chat_pos.py')],
                 state=[dict(name='eojeols, nouns, adjectives, verbs, adjective_stems, verb_stems, eomis, josas, adverbs', meaning='what is known after training', where='soynlp/pos/_news_pos.py')],
                 observe_at=['train_extract', 'train', 'extract'], hook_needed=None))

CHECK = dict(
    technique='bounded-exhaustive enumeration of sets of known words x eojeol counts on the real extractors against an independent reference of all stages',
    level_note='All combinations of known words from pools in which words nest and overlap, with all words over the alphabet as eojeols, and all subsets of an eojeol pool; end to end on generated corpora with the trained state as the known words.',
    assumptions=['eojeols are complete Hangul; known words as well, except for endings that begin with a lone consonant', 'Lemmatizer candidates and MaxScoreTokenizer are judged by P22 and P09', 'extract() is called once after each training'])

ADVERB = 'soynlp/postagger/dictionary/default/Adverb/adverb.txt'
CHAT = 'soynlp/postagger/dictionary/default/Josa/josa_chat.txt'


def joint(stem, eomi, chat):
    if chat and stem[-1] in '업닿땋':
        return False
    l, r = hangul.decompose(stem[-1]), hangul.decompose(eomi[0])
    if l[2] in 'ㄹㅂ' and r[0] in 'ㄴㄹㅁㅂ':
        return False
    return not (l[1] == 'ㅡ' and l[2] == ' ' and r[0] == 'ㅇ' and r[1] in 'ㅓㅏ')


def reference(k, chat, candidates, tokenizer):
    """k: dict of the public fields; returns the wordtags"""
    eoj = dict(k['eojeols'])
    A = {w: set(l) for w, l in k['adjectives'].items()}
    V = {w: set(l) for w, l in k['verbs'].items()}
    SA, SV = set(k['adjective_stems']), set(k['verb_stems'])
    eomis, josas = set(k['eomis']), set(k['josas'])
    noun, adj, verb, adv, josa = {}, {}, {}, {}, {}
    rest = {}
    for w, c in eoj.items():
        hit = False
        for known, counter in ((k['nouns'], noun), (A, adj), (V, verb), (k['adverbs'], adv)):
            if w in known:
                counter[w] = c
                hit = True
        if not hit:
            rest[w] = c

    def first(w, ls, rs):
        for i in range(2, len(w)):
            if w[:i] in ls and w[i:] in rs:
                return w[:i], w[i:]

    # noun + R
    left = {}
    seen_n, seen_a, seen_v = set(noun), set(adj), set(verb)
    for w, c in rest.items():
        hit = False
        for rs, counter in ((josas, josa), (seen_a, adj), (seen_v, verb)):
            lr = first(w, seen_n, rs)
            if lr:
                noun[lr[0]] += c
                counter[lr[1]] = counter.get(lr[1], 0) + c
                hit = True
        if not hit:
            left[w] = c
    rest = left

    # predicator + predicator
    ls = set(A) | set(V)
    wrong = set()
    found = set()
    for base, counter, mine in ((A, adj, SA), (V, verb, SV)):
        comp = {}
        for w, c in rest.items():
            lr = first(w, ls, base)
            if lr:
                lem = {(lr[0] + s, e) for s, e in base[lr[1]]}
                lem = {(s, e) for s, e in lem if joint(s, e, chat) and s not in SA and s not in SV}
                if lem:
                    comp[w] = lem
        if chat:
            total, jamo = defaultdict(int), defaultdict(int)
            for w, lem in comp.items():
                for s, e in lem:
                    total[s] += rest[w]
                    jamo[s] += rest[w] * hangul.is_jaum(e[0])
            bad = {s for s in total if jamo[s] * 10 >= 9 * total[s] and jamo[s]}
            comp = {w: {(s, e) for s, e in lem if s not in bad} for w, lem in comp.items()}
            comp = {w: lem for w, lem in comp.items() if lem}
        base.update(comp)
        mine.update(s for lem in comp.values() for s, _ in lem)
        if chat:
            votes = defaultdict(int)
            for w, lem in base.items():
                for _, e in lem:
                    votes[e] += 1 if w in comp else -1
            wrong |= {e for e, n in votes.items() if n > 0}
        for w in comp:
            counter[w] = counter.get(w, 0) + rest[w]
            found.add(w)
    eomis -= wrong
    rest = {w: c for w, c in rest.items() if w not in found}

    # lemmatize
    found = set()
    for base, counter, mine in ((A, adj, SA), (V, verb, SV)):
        for w, c in rest.items():
            for i in range(len(w), 0, -1):
                lem = {(s, e) for s, e in candidates(w, i) if s in mine and e in eomis}
                if lem:
                    base[w] = lem
                    counter[w] = counter.get(w, 0) + c
                    found.add(w)
                    break
    rest = {w: c for w, c in rest.items() if w not in found}

    # syllable + R
    found = set()
    for counter in (adj, verb, josa):
        for w, c in rest.items():
            if w[1:] in counter:
                noun[w[0]] = noun.get(w[0], 0) + c
                counter[w[1:]] += c
                found.add(w)
    rest = {w: c for w, c in rest.items() if w not in found}
    rest = {w: c for w, c in rest.items() if w not in josas and w not in eomis and len(w) > 1}

    if not chat:
        words = set(noun) | set(adj) | set(verb) | set(josa)
        long = {w for w in noun if len(w) > 1}
        comp, left = defaultdict(int), {}
        for w, c in rest.items():
            toks = tokenizer(w, long)
            if all(t in long for t in toks[:-1]) and len(toks) >= 3 and toks[-1] in words:
                comp[''.join(toks[:-1])] += c
            elif all(t in long for t in toks):
                comp[w] += c
            else:
                left[w] = c
        rest = left
        for w, c in comp.items():
            noun[w] = noun.get(w, 0) + c
    confused = {w for w in noun if w in adj or w in verb or w in adv}
    if chat:
        ends = lambda r: r in josa or r in adj or r in verb
        confused |= {w for w in noun if len(w) > 2 and any(ends(w[i:]) for i in range(1, len(w)))}
    return dict(Noun={w: c for w, c in noun.items() if w not in confused},
                ConfusedNouns={w: c for w, c in noun.items() if w in confused},
                Eomi=eomis, Josa=josas, AdjectiveStem=SA, VerbStem=SV, Adverb=adv, Irrecognizable=rest,
                Adjective={w: (c, A[w]) for w, c in adj.items()}, Verb={w: (c, V[w]) for w, c in verb.items()})


def view(tags):
    out = {}
    for t, x in tags.items():
        if t in ('Adjective', 'Verb'):
            out[t] = {w: (p.frequency, set(p.lemma)) for w, p in x.items()}
        elif t in ('Noun', 'ConfusedNouns', 'Adverb', 'Irrecognizable'):
            out[t] = dict(x)
        else:
            out[t] = set(x)
    return out


def harnesses(tier):
    from mc import core
    from soynlp.lemmatizer import lemma_candidate
    from soynlp.noun import LRNounExtractor_v2
    from soynlp.pos import ChatPOSExtractor, NewsPOSExtractor
    from soynlp.predicator import Predicator, PredicatorExtractor
    from soynlp.tokenizer import MaxScoreTokenizer
    deep = tier == 'thorough'
    with open('%s/%s' % (core.REPO, CHAT), encoding='utf8') as f:
        chat_josas = {l.strip() for l in f}
    with open('%s/%s' % (core.REPO, ADVERB), encoding='utf8') as f:
        default_adverbs = {l.split()[0] for l in f}
    with open('%s/soynlp/trained_models/noun_predictor_ver2_pos' % core.REPO, encoding='utf8') as f:
        default_josas = {l.strip() for l in f}
    cache, tcache = {}, {}

    def candidates(w, i):
        if (w, i) not in cache:
            try:
                cache[w, i] = set(lemma_candidate(w[:i], w[i:]))
            except Exception:
                cache[w, i] = set()
        return cache[w, i]

    def tokenizer(w, nouns):
        inside = frozenset(n for n in nouns if n in w)
        if (w, inside) not in tcache:
            tcache[w, inside] = [t[0] for t in MaxScoreTokenizer(scores={n: 1 for n in inside}).tokenize(w, flatten=False)[0]] if inside else [w]
        return tcache[w, inside]

    FIELDS = 'eojeols nouns adjectives verbs adjective_stems verb_stems eomis josas adverbs'.split()

    def compare(rec, ex, known, chat, what, loud=False):
        want = reference(dict(known, josas=chat_josas if chat else known['josas']), chat, candidates, tokenizer)
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            tags = ex.extract()
        rec.step(len(known['eojeols']))
        got = view(tags)
        rec.check(set(got) == set(want), '%s: categories %r', what, sorted(got))
        for t in want:
            if got[t] != want[t]:
                g, w = got[t], want[t]
                bad = sorted(x for x in set(g) | set(w) if isinstance(g, set) and (x in g) != (x in w) or isinstance(g, dict) and g.get(x) != w.get(x))
                rec.fail('%s: %s differs for %r: got %r, expected %r' % (what, t, bad[:4], {x: (g.get(x) if isinstance(g, dict) else x in g) for x in bad[:4]}, {x: (w.get(x) if isinstance(w, dict) else x in w) for x in bad[:4]}))
        return got

    def setup(known, chat, loud=False):
        ex = (ChatPOSExtractor if chat else NewsPOSExtractor)(verbose=loud)
        for f in FIELDS:
            v = known[f]
            if f in ('adjectives', 'verbs'):
                v = {w: Predicator(1 + sum(map(ord, w)) % 5, set(l)) for w, l in v.items()}
            elif f == 'nouns':
                v = {w: None for w in v}
            else:
                v = type(v)(v)
            setattr(ex, f, v)
        return ex

    # words of the alphabet 가 나 고 는: stems 가, 나, 가나 ..., endings 고, 는
    ALPHA = '가나고는'
    EOJ = list(gen.words_upto(ALPHA, 4, 1))
    LEM = {'가고': {('가', '고')}, '나는': {('나', '는')}, '가는': {('가', '는')}, '나고': {('나', '고')}, '고는': {('고', '는')}, '가나고': {('가나', '고'), ('가', '나고')}, '는': {('느', '는')}, '고': {('고', '고')}}
    POOLS = [
        ('nouns', ['나가', '가나', '가나나', '고가', '가고', '가나가', '나나', '고']),
        ('josas', ['는', '고', '나는', '가', '가는']),
        ('adjectives', ['나고', '가는', '고는']),
        ('verbs', ['가고', '나는', '가는', '가나고']),
        ('stems', ['가:v', '나:a', '가나:v', '가:a', '나가:v']),
        ('eomis', ['고', '는', '나', '고는']),
        ('adverbs', ['고고', '가나', '나나고']),
    ]

    def known_of(sel, eojeols):
        p = {name: [x for i, x in enumerate(pool) if m >> i & 1] for (name, pool), m in zip(POOLS, sel)}
        return dict(eojeols=eojeols, nouns=set(p['nouns']), josas=set(p['josas']), adverbs=set(p['adverbs']), eomis=set(p['eomis']),
                    adjectives={w: LEM[w] for w in p['adjectives']}, verbs={w: LEM[w] for w in p['verbs']},
                    adjective_stems={s[:-2] for s in p['stems'] if s[-1] == 'a'}, verb_stems={s[:-2] for s in p['stems'] if s[-1] == 'v'})

    sizes = [1 << len(p) for _, p in POOLS]
    total = 1
    for s in sizes:
        total *= s

    def sel_of(n):
        out = []
        for s in sizes:
            out.append(n % s)
            n //= s
        return out

    def run_sets(block, rec):
        kind, lo, hi = block
        for k in range(lo, hi):
            if kind == 'two pools':
                sel = pairs[k]
                salt = k
            else:
                sel = sel_of(gen.mix(k) * 65539 % total)
                salt = gen.mix(k + 77)
            m = salt % 4
            # which words occur: all, or without a scattered part
            eoj = {w: 1 + gen.mix(i * 31 + salt) % 97 for i, w in enumerate(EOJ) if m == 0 or gen.mix(i + 1009 * salt) % 5 >= m}
            chat = salt // 4 % 3 == 0
            known = known_of(sel, eoj)
            rec.state((tuple(sel), salt))
            loud = salt % 50 == 0
            got = compare(rec, setup(known, chat, loud), known, chat, '%s extractor, nouns %r, josas %r, adjectives %r, verbs %r, adjective stems %r, verb stems %r, endings %r, adverbs %r, eojeols %d' % (
                'chat' if chat else 'news', known['nouns'], known['josas'], set(known['adjectives']), set(known['verbs']), known['adjective_stems'], known['verb_stems'], known['eomis'], known['adverbs'], salt))
            rec.trace()
            for t, x in got.items():
                rec.outcome((chat, t, min(9, len(x))))

    full = [s - 1 for s in sizes]
    pairs = []
    # all subsets of two pools together, the other pools full or nearly empty
    for i, j in itertools.combinations(range(len(sizes)), 2):
        if sizes[i] * sizes[j] > 300 and not deep:
            continue
        for a in range(sizes[i]):
            for b in range(sizes[j]):
                sel = list(full) if (a + b) % 2 else [1 + 2 * (x > 2) for x in full]
                sel[i], sel[j] = a, b
                pairs.append(sel)
    many = 40000 if deep else 3000

    # chat and news over all subsets of an eojeol pool, words with other letters
    POOL = ['예쁘고', '달리고', '달리는데', '예쁘고달리고', '달리고예쁘고', '달리는데ㅋ', '학교', '학교는', '학교달리고', '학교운동장', '운동장', '학교운동장는', '빨리', '책예쁘고', '달렸다', '는', '달리고ㅋ고', '달리고달렸다']

    def run_subsets(block, rec):
        lo, hi, chat = block
        for m in range(lo, hi):
            eoj = {w: 1 + gen.mix(i * 17 + m) % 7 for i, w in enumerate(POOL) if m >> i & 1}
            known = dict(eojeols=eoj, nouns={'학교', '운동장', '달리'}, adjectives={'예쁘고': {('예쁘', '고')}, '예뻤다': {('예쁘', '었다')}},
                         verbs={'달리고': {('달리', '고')}, 'ㅋ고': {('크', 'ㅋ고')}, '달렸다': {('달리', '었다')}, '달리는데': {('달리', '는데')}},
                         adjective_stems={'예쁘'}, verb_stems={'달리'}, eomis={'고', '는데', '었다', 'ㅋ고'} if m % 3 else {'고', '는데', '었다'}, josas={'는', '를'}, adverbs={'빨리'})
            rec.state((chat, m))
            compare(rec, setup(known, chat), known, chat, '%s extractor, eojeols %r' % ('chat' if chat else 'news', eoj))
            rec.trace()
        rec.outcome(chat)

    step = 1 << (len(POOL) - (15 if deep else 12))

    # joints of predicator compounds: last syllable of the stem x first syllable of the ending
    LAST = list('가그느크르쓰뜨으음은을급늘줄잡갑넓닳닭굶갚널업닿땋없짧놀덥서러')
    FIRST = list('가거나너는니네네다더도라러려로를마면므며바버브ㄴㄹㅁㅂㄱㅅㅋ사서아어여오으이요았었았을은음ㅏ습니까읍세')

    def run_joints(case, rec):
        last, chat = case
        for first_ in FIRST:
            for tail in ('', '다'):
                stem, eomi = '마' + last, first_ + tail
                second = '쇠다'
                known = dict(eojeols={'바다' + second: 3, second: 1, '코쇠다': 2}, nouns=set(), adjectives={second: {(stem, eomi), ('쇠', '다')}, '바다': {('바', '다')}},
                             verbs={second: {(stem, eomi)}, '코다': {('코', '다')}}, adjective_stems={'쇠', '바다쇠'}, verb_stems={'코'}, eomis={'다', eomi}, josas={'는'}, adverbs=set())
                rec.state((last, first_, tail, chat))
                compare(rec, setup(known, chat), known, chat, '%s extractor, stem %r and ending %r of the second predicator of a compound' % ('chat' if chat else 'news', stem, eomi))
                rec.trace()
        rec.outcome((last, chat))

    # forms with several cuts and several lemmas for one cut: every choice of known stems and endings
    FORMS = ['걸어', '걸어서', '물어', '물어서', '나물어', '가나고', '가나나고', '나고', '가나나', '일러', '일러서', '이르러서', '가파른', '나는', '날아', '걸', '가나는']
    STEMS_ = ['걷', '걸', '묻', '물', '가', '가나', '나', '날', '이르', '일르', '가파르', '나물']

    def run_forms(case, rec):
        chat, lo = case
        for hi in range(1 << (6 if deep else 5)):
            m = gen.mix(lo * 64 + hi)
            for roles in range(3):
                va = {s for i, s in enumerate(STEMS_) if (m >> i & 1) or roles == 0}
                vv = {s for i, s in enumerate(STEMS_) if (m >> (i + roles + 3) & 1) or roles == 1}
                eomis = {e for i, e in enumerate(['어', '어서', '고', '나고', '나나고', '나', 'ㄴ', '는', '아', 'ㄹ', '나는']) if (lo >> (i % 6) & 1) == (hi >> (i % 5) & 1) or i < 2}
                known = dict(eojeols={w: 1 + i for i, w in enumerate(FORMS)}, nouns=set(), adjectives={}, verbs={}, adjective_stems=va, verb_stems=vv, eomis=eomis, josas={'에'}, adverbs=set())
                rec.state((chat, lo, hi, roles))
                compare(rec, setup(known, chat), known, chat, '%s extractor, adjective stems %r, verb stems %r, endings %r' % ('chat' if chat else 'news', sorted(va), sorted(vv), sorted(eomis)))
                rec.trace()
        rec.outcome(chat)

    # how often lone consonants follow the stem of a compound (chat: nine in ten or more), and in how many words an ending occurs
    def run_ratio(case, rec):
        a, chat, kind = case
        for b in range(24):
            for scale in (1, 10, 77):
                second = {'군': {('구', 'ㄴ')}, '굽': {('구', 'ㅂ')}, '구고': {('구', '고')}, '구지': {('구', '지')}}
                other = {'먹고': {('먹', '고')}, '가고': {('가', '고')}, '가지': {('가', '지')}}
                eoj = {'바다군': a * scale - a * scale // 3, '바다굽': a * scale // 3, '바다구고': b * scale - b * scale // 2, '바다구지': b * scale // 2, '먹다군': 1 + b, '먹다구지': 1}
                eoj = {w: c for w, c in eoj.items() if c}
                known = dict(eojeols=eoj, nouns=set(), adjectives=dict(second, **(other if b % 2 else {})) if kind != 'verbs' else {}, verbs=dict(second if kind != 'adjectives' else {}, **{'바다': {('바', '다')}, '먹다': {('먹', '다')}}, **(other if b % 3 else {})),
                             adjective_stems={'구'}, verb_stems={'바', '먹'}, eomis={'고', '지', 'ㄴ', 'ㅂ', '다'}, josas={'는'}, adverbs=set())
                rec.state((a, b, scale, chat, kind))
                compare(rec, setup(known, chat), known, chat, '%s extractor, %r, eojeols %r' % ('chat' if chat else 'news', kind, eoj))
                rec.trace()
        rec.outcome((chat, kind))

    # thousands of eojeols of up to twenty characters: all chains of up to three (some of four) morphemes, counts up to a million
    MORPH = ['학교', '운동장', '국어사전집', '책', '는', '에서', '에게서는', '달리고', '달렸다', '예쁘고', '먹었다', '빨리', '달리', '고', '었다']

    def run_scale(case, rec):
        chat, v, loud = case
        chains = [c for k in (1, 2, 3) for c in itertools.product(MORPH, repeat=k)]
        chains += [c for i, c in enumerate(itertools.product(MORPH[:12], repeat=4)) if gen.mix(i + 7 * v) % 40 == 0]
        eoj = {}
        for i, c in enumerate(chains):
            if gen.mix(i * 5 + v) % 4:
                eoj[''.join(c)] = (1 + gen.mix(i + v) % 9) * 10 ** (gen.mix(i * 3 + v) % 6)
        pick = lambda ws: [w for i, w in enumerate(ws) if v % 4 == 0 or (i + v) % 4]
        many = ['가' + chr(ord('가') + 28 * i) + '차' for i in range(300)]
        eoj.update((w + ('는' if i % 3 else many[i * 7 % 300]), 1 + i) for i, w in enumerate(many))
        known = dict(eojeols=eoj, nouns=set(pick(['학교', '운동장', '국어사전집', '책', '달리', '학교운동장', '빨리', '예쁘'] + many)), josas=set(pick(['는', '에서', '에게서는', '고', '달리고'])),
                     adjectives={w: {('예쁘', '고')} for w in pick(['예쁘고', '예쁘고예쁘고'])}, verbs={w: {(w[:-1] if w[-1] == '고' else '달리' if w[0] == '달' else '먹', '고' if w[-1] == '고' else '었다')} for w in pick(['달리고', '달렸다', '먹었다', '학교달리고'])},
                     adjective_stems={'예쁘'}, verb_stems=set(pick(['달리', '먹', '학교먹'])), eomis=set(pick(['고', '었다', '는', '에서'])), adverbs=set(pick(['빨리', '빨리빨리'])))
        rec.state(tuple(case))
        got = compare(rec, setup(known, chat, loud), known, chat, '%s extractor, %d eojeols, variant %d, messages %r' % ('chat' if chat else 'news', len(eoj), v, loud))
        for t, x in got.items():
            rec.outcome((chat, t, len(x)))
        rec.trace()

    CORPORA = [
        ['학교는 학교를 학교에 학교가 학교', '노래를 노래가 노래는 노래', '달리고 달리는 달리면 달렸다 달려서', '예쁘고 예쁜 예쁘다 예뻐서 예쁘면', '학교노래 학교노래를 빨리 책을 책이'],
        ['가고 가는 가면 갔다 가서', '먹고 먹는 먹으면 먹었다 먹어서', '사람이 사람은 사람을 사람에게 사람', '사람가고 빨리 매우 사람들 사람들이', '크고 큰 크다 커서'],
        ['노래하고 노래하는 노래했다 노래해서', '하고 하는 했다 해서 하면', '조용하고 조용한 조용히 조용하다', '노래는 노래를 노래가 노래', '밥을 밥은 밥이 먹고하고'],
        [],
        ['가'],
    ]

    def corpus(mask):
        return [s for i, c in enumerate(CORPORA[:3]) for s in c if mask >> i & 1] * (2 if mask & 8 else 1)

    def fields(ex):
        return dict(eojeols=dict(ex.eojeols), nouns=set(ex.nouns), adverbs=set(ex.adverbs), josas=set(ex.josas), eomis=set(ex.eomis),
                    adjectives={w: set(p.lemma) for w, p in ex.adjectives.items()}, verbs={w: set(p.lemma) for w, p in ex.verbs.items()},
                    adjective_stems=set(ex.adjective_stems), verb_stems=set(ex.verb_stems))

    PARAMS = [{}, dict(min_noun_score=0.5, min_eojeol_frequency=2), dict(min_predicator_frequency=2, min_num_of_noun_features=2), dict(min_num_of_eomi_features=2, min_eomi_score=0.1), dict(max_frequency_when_noun_is_eojeol=1, min_noun_frequency=3, min_eomi_frequency=3)]

    def trained(rec, ex, sents, p, norm, eomi, what):
        """The state after training, against the extractors it is made of."""
        quiet = io.StringIO()
        with contextlib.redirect_stdout(quiet):
            ex.train(sents, **p)
            n = LRNounExtractor_v2(extract_pos_feature=False, extract_determiner=False, extract_compound=False, ensure_normalized=norm, verbose=False,
                                   min_num_of_features=p.get('min_num_of_noun_features', 1), max_frequency_when_noun_is_eojeol=p.get('max_frequency_when_noun_is_eojeol', 30))
            n.train(sents, p.get('min_eojeol_frequency', 1))
            counts = dict(n.lrgraph.to_EojeolCounter().items())
            nouns = n.extract(p.get('min_noun_score', 0.3), p.get('min_noun_frequency', 1))
            josas = set(default_josas)
            pe = PredicatorExtractor(dict(nouns), set(josas), extract_eomi=eomi, extract_stem=False, verbose=False)
            adj, verb = pe.train_extract(sents, min_eojeol_frequency=p.get('min_eojeol_frequency', 1), min_predicator_frequency=p.get('min_predicator_frequency', 1),
                                         min_num_of_features=p.get('min_num_of_eomi_features', 5), min_eomi_score=p.get('min_eomi_score', 0.3), min_eomi_frequency=p.get('min_eomi_frequency', 1))
        got = fields(ex)
        lem = lambda t: {w: set(x.lemma) for w, x in t.items()}
        for f, w in (('eojeols', counts), ('nouns', set(nouns)), ('josas', josas), ('adjectives', lem(adj)), ('verbs', lem(verb))):
            rec.equal(got[f], w, '%s: %s after training' % (what, f))
        hi = {s[:-1] + '히' for s in got['adjective_stems'] | got['verb_stems'] if s[-1] == '하'}
        rec.check(got['adverbs'] == default_adverbs | hi, '%s: adverbs after training differ: %r', what, sorted(got['adverbs'] ^ (default_adverbs | hi))[:5])
        return got

    def run_train(case, rec):
        masks, pi, norm, eomi, chat = case
        p = PARAMS[pi]
        ex = (ChatPOSExtractor if chat else NewsPOSExtractor)(verbose=pi == 1, ensure_normalized=norm, extract_eomi=eomi)
        for m in masks:
            sents = corpus(m) if m < 16 else CORPORA[m - 13]
            what = '%s extractor(ensure_normalized=%r, extract_eomi=%r), corpora %r, %r' % ('chat' if chat else 'news', norm, eomi, masks, p)
            known = trained(rec, ex, sents, p, norm, eomi, what)
            got = compare(rec, ex, known, chat, what)
            with contextlib.redirect_stdout(io.StringIO()):
                again = view((ChatPOSExtractor if chat else NewsPOSExtractor)(verbose=False, ensure_normalized=norm, extract_eomi=eomi).train_extract(sents, **p))
            rec.equal(again, got, what + ': train_extract() of a new object')
            rec.state((tuple(masks), m, pi, norm, eomi, chat))
            rec.outcome((chat, len(got['Noun']), len(got['Verb'])))
            rec.trace()

    train_cases = [[[m], pi, norm, eomi, bool((m + pi + norm + eomi) % 2)] for m in range(1, 16) if m != 8 for pi in range(len(PARAMS)) for norm in (True, False) for eomi in (True, False) if deep or gen.mix(m * 20 + pi * 4 + norm * 2 + eomi) % 3 == 0]
    train_cases += [[list(ms), 0, True, True, chat] for ms in itertools.permutations([1, 2, 4], 2) for chat in (True, False)]
    return [
        Harness('scale', run_scale, [[chat, v, loud] for chat in (True, False) for v in range(8 if not deep else 64) for loud in (False, True)], chunk=1, about='all chains of up to three and some of four of 15 morphemes and 300 further nouns: eojeols of up to twenty characters, counts up to a million, messages on and off', bound='about 3,300 eojeols x 8 sets of known words'),
        Harness('two pools', run_sets, [['two pools'] + b for b in gen.blocks(len(pairs), 20)], chunk=2, about='all subsets of two pools of known words together, the other pools full or small', bound='%d sets, up to %d eojeols (words of up to 4 characters over 4)' % (len(pairs), len(EOJ))),
        Harness('all pools', run_sets, [['all pools'] + b for b in gen.blocks(many, 20)], chunk=2, about='combinations of subsets of all pools, scattered by a fixed permutation over the whole product', bound='%d of %d combinations' % (many, total)),
        Harness('eojeol subsets', run_subsets, [[a, a + 64, chat] for chat in (True, False) for a in range(0, 1 << len(POOL), 64 * step)], chunk=4, about='all subsets of the first eojeols of a pool with scattered subsets of the others', bound='%d subsets for each extractor' % ((1 << len(POOL)) // step)),
        Harness('joints', run_joints, [[c, chat] for c in LAST for chat in (True, False)], chunk=2, about='last syllables of stems x beginnings of endings in predicator compounds', bound='%d x %d' % (len(LAST), 2 * len(FIRST))),
        Harness('forms', run_forms, [[chat, lo] for chat in (True, False) for lo in range(64 if deep else 24)], chunk=2, about='17 forms with several cuts and lemmas, scattered subsets of 12 stems and 11 endings', bound='%d choices' % (64 * 64 * 3 if deep else 24 * 32 * 3)),
        Harness('ratio', run_ratio, [[a, chat, kind] for a in (list(range(1, 30)) if deep else [1, 2, 4, 8, 9, 10, 16, 18, 20, 24, 27]) for chat in (True, False) for kind in ('adjectives', 'verbs', 'both')], chunk=2, about='counts of compounds whose stem lone consonants and other endings follow, around nine in ten, and the number of words with an ending', bound='%d x 24 counts x 3 scales' % (29 if deep else 11)),
        Harness('training', run_train, train_cases, chunk=1, about='corpora x parameters, the trained state and the result', bound='all subsets of 3 corpora, %d parameter sets; all orders of two trainings' % len(PARAMS)),
    ]
