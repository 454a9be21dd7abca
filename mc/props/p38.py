"""P38: MaxLRScoreTokenizer selection semantics."""
import itertools

from mc import gen
from mc.core import Harness
from mc.props.p09 import greedy as cut_by_score

PROP = dict(
    id='P38',
    title='The L-R score tokenizer selects L+R candidates as its parameters say',
    statement=(
        'For every L and R score dictionary in which L scores differ, preferences, thresholds and word, the L-R score tokenizer considers every occurrence of an L word followed directly by an R word, or alone if it has two or more characters. '
        'It drops a candidate whose L part lies strictly inside the L part of another, lower scored candidate when the difference of the two L scores is below max_lscore_difference or, for an L score above half of ensurable_score_l, their ratio is below max_lscore_diffratio. '
        'It drops a candidate with an R inside which a remaining candidate begins whose L score is at least ensurable_score_l or, with its preference, exceeds the R score by more than ensurable_score_lr_diff. '
        'The rest score L plus R, or twice L without an R, plus the preferences of both words, and are taken greedily without overlap, the highest first (any order among equals). '
        'What is left is cut by the max-score tokenizer over the R dictionary and tagged R if it is an R word, L otherwise. '
        'Words given as a list or only as preferences score 1.0, and a dictionary passed overrides what tokenizer_builder makes of the L-R graph.'),
    quantifier=dict(over=['inputs', 'configurations'], text='all words, L and R dictionaries, preferences and thresholds'),
    why_tests_cant='The test suite tokenizes nothing with this class; which of overlapping L+R readings wins depends on the whole set of candidates.',
    anchors=dict(files=['soynlp/tokenizer/_tokenizer.py'],
                 mechanism=[dict(name='MaxLRScoreTokenizer._initialize / _remove_l_subset / _score / _find_best / _postprocessing', where='soynlp/tokenizer/_tokenizer.py')],
                 observe_at=['MaxLRScoreTokenizer.tokenize'], hook_needed=None))

CHECK = dict(
    technique='bounded-exhaustive enumeration of L and R dictionaries, score orders, preferences and thresholds x words on the real tokenizer against an independent selection reference',
    level_note='Every subset of five L and five R words over {a,b} with several assignments of distinct scores, every word over {a,b} up to six letters; where totals tie every greedy outcome is accepted.',
    assumptions=['L scores are pairwise different, or only one occurrence decides (which of two nested L words with equal scores is kept depends on the order of the candidates and is not specified)', 'dictionaries contain no empty word'])

STD = dict(max_lscore_difference=0.3, max_lscore_diffratio=0.5, ensurable_score_l=0.5, ensurable_score_lr_diff=0.3)


def kept(word, L, R, Pl, Pr, opt):
    """The scored candidates (begin, middle, end, total) among which the greedy choice is made."""
    n = len(word)
    cands = []
    for b in range(n):
        for m in range(b + 1, n + 1):
            if word[b:m] not in L:
                continue
            for e in range(m, n + 1):
                if e == m and m - b == 1:
                    continue
                if e > m and word[m:e] not in R:
                    continue
                cands.append((b, m, e))
    score = {c: L[word[c[0]:c[1]]] for c in cands}

    def swallowed(c):
        for d in cands:
            if d[0] <= c[0] and d[1] >= c[1] and d[:2] != c[:2] and score[d] < score[c]:
                if score[c] - score[d] < opt['max_lscore_difference']:
                    return True
                if opt['ensurable_score_l'] * 0.5 < score[c] and (score[c] + 1e-5) / (score[d] + 1e-5) < opt['max_lscore_diffratio']:
                    return True
        return False

    rest = [c for c in cands if not swallowed(c)]
    out = []
    for b, m, e in rest:
        l, r = word[b:m], word[m:e]
        if e > m:
            clash = False
            for d in rest:
                if m <= d[0] < e:
                    s = score[d]
                    if s >= opt['ensurable_score_l'] or s + Pl.get(word[d[0]:d[1]], 0) - R[r] > opt['ensurable_score_lr_diff']:
                        clash = True
            if clash:
                continue
            total = L[l] + R[r]
        else:
            total = L[l] * 2
        out.append((b, m, e, total + Pl.get(l, 0) + Pr.get(r, 0)))
    return out


def choices(cands):
    """Every set of candidates that a greedy choice by total can end with."""
    seen = set()
    stack = [((), tuple(sorted(cands)))]
    done = set()
    while stack:
        taken, left = stack.pop()
        if (taken, left) in seen:
            continue
        seen.add((taken, left))
        if not left:
            done.add(taken)
            continue
        top = max(c[3] for c in left)
        # equally good candidates that do not touch are all chosen in any order: branch within one group of overlapping ones
        tied = [c for c in left if top - c[3] < 1e-12]
        group, grown = [tied[0]], 1
        while grown:
            more = [c for c in tied if c not in group and any(c[0] < d[2] and c[2] > d[0] for d in group)]
            group += more
            grown = len(more)
        for c in group:
            stack.append((tuple(sorted(taken + (c[:3],))), tuple(d for d in left if d is not c and not (c[0] < d[2] and c[2] > d[0]))))
    return done


def reading(word, taken, R):
    out = []

    def fill(b, e):
        if b == e:
            return
        for w, *_ in cut_by_score(word[b:e], R, 10, 0.0):
            out.append((w, 'R' if w in R else 'L'))

    at = 0
    for b, m, e in taken:
        fill(at, b)
        out.append((word[b:m], 'L'))
        if e > m:
            out.append((word[m:e], 'R'))
        at = e
    fill(at, len(word))
    return out


def harnesses(tier):
    from soynlp.tokenizer import MaxLRScoreTokenizer
    deep = tier == 'thorough'

    lmenu = ['ab', 'aba', 'ba', 'a', 'bb']
    rmenu = ['a', 'b', 'bb', 'ab', 'ba']
    rscores = [0.5, 0.25, 0.75, 0.4, 1.0]
    texts = list(gen.words_upto('ab', 6 if deep else 5, 1))
    far = ['abababab', 'bbabaabb', 'aabbaabba', 'abaababaab']
    lscores = [(0.75, 0.625, 0.5, 0.375, 0.25), (0.25, 0.375, 0.5, 0.625, 0.75), (1.0, 0.1, 0.9, 0.2, 0.55), (0.1, 1.0, 0.2, 0.9, 0.55), (0.5, 0.2, 0.46, 0.8, 0.05), (0.3, 0.35, 0.05, 0.1, 1.5)]
    settings = [dict(), dict(max_lscore_difference=0.0), dict(max_lscore_difference=0.6), dict(max_lscore_difference=0.05, max_lscore_diffratio=1.5), dict(max_lscore_difference=0.05, max_lscore_diffratio=1.5, ensurable_score_l=1.4),
                dict(ensurable_score_l=0.25), dict(ensurable_score_l=2.0), dict(ensurable_score_l=2.0, ensurable_score_lr_diff=-0.5), dict(ensurable_score_l=0.9, ensurable_score_lr_diff=0.0)]
    prefs = [(None, None), ({'ab': 0.5}, None), ({'ba': 1.25, 'a': -0.25}, {'ba': 0.75}), (None, {'b': 1.0, 'bb': 0.25})]

    def compare(tok, s, L, R, Pl, Pr, opt, what, rec):
        want = []
        for w in s.split():
            want.append([reading(w, t, R) for t in choices(kept(w, L, R, Pl, Pr, opt))])
        got = [[tuple(x) for x in g] for g in tok.tokenize(s, flatten=False)]
        rec.step()
        rec.equal(len(got), len(want), 'number of words of %r' % s)
        for g, ws in zip(got, want):
            if g not in ws:
                rec.fail('tokens of %r are %r, not one of %r (%s)' % (s, g, ws, what()))
        return got

    def run_dicts(case, rec):
        lm, rm, sc, opt, p = case
        L = {w: s for i, (w, s) in enumerate(zip(lmenu, lscores[sc])) if lm >> i & 1}
        R = {w: s for i, (w, s) in enumerate(zip(rmenu, rscores)) if rm >> i & 1}
        Pl, Pr = prefs[p]
        given = settings[opt]
        keep = (dict(L), dict(R), dict(Pl or {}), dict(Pr or {}))
        tok = MaxLRScoreTokenizer(Dl=L, Dr=R, preference_l=Pl, preference_r=Pr, **given)
        rec.equal((L, R, dict(Pl or {}), dict(Pr or {})), keep, 'what was passed, after constructing')
        fullL = dict(L)
        fullR = dict(R)
        for w in (Pl or {}):
            fullL.setdefault(w, 1.0)
        for w in (Pr or {}):
            fullR.setdefault(w, 1.0)
        if len(set(fullL.values())) < len(fullL):
            return
        full = dict(STD, **given)
        for s in texts + far:
            rec.state((lm, rm, sc, opt, p, s))
            got = compare(tok, s, fullL, fullR, Pl or {}, Pr or {}, full, lambda: 'L=%r R=%r preferences %r settings %r' % (fullL, fullR, (Pl, Pr), given), rec)
            rec.outcome(tuple(t for g in got for _, t in g))
        rec.trace()
        rec.sample(case)

    roots = []
    for lm in range(32):
        for rm in range(32):
            for sc in range(len(lscores)):
                for opt in range(len(settings)):
                    for p in range(len(prefs)):
                        k = lm * 7 + rm * 5 + sc * 3 + opt * 11 + p
                        if deep or (opt == 0 and p == 0 and sc < 2) or k % 16 == 0:
                            roots.append([lm, rm, sc, opt, p])

    # ---- how dictionaries can be given -------------------------------------
    given = [None, ['ab'], {'ab': 0.5}, {'ab': 0.5, 'aba': 0.25}, {'ab'}, {'b': 0.5}, []]
    given_r = [None, ['b'], {'b': 0.5}, ('ba',), {'ba': 0.25, 'b': 0.125}]
    given_p = [None, {'b': 0.5}, {'ab': 0.25}, {'aba': 2.0}]
    graph = {'ab': {'a': 3, 'b': 1}, 'ba': {'b': 2}}
    built = ({'ba': 0.375, 'ab': 0.75}, {'a': 0.5, 'b': 0.25})

    def run_given(case, rec):
        dl, dr, pl, pr, b = case
        Dl, Dr, Pl, Pr = given[dl], given_r[dr], given_p[pl], given_p[pr]
        asked = []

        def builder(g):
            asked.append(g)
            return dict(built[0]), dict(built[1])

        kw = dict(lrgraph=graph, tokenizer_builder=builder) if b else {}
        tok = MaxLRScoreTokenizer(Dl, Dr, Pl, Pr, **kw)
        L, R = (dict(built[0]), dict(built[1])) if b else ({}, {})
        if b:
            rec.equal(asked, [graph], 'what the builder was called with')
        for full, d, pref in ((L, Dl, Pl), (R, Dr, Pr)):
            full.update(d if isinstance(d, dict) else {w: 1.0 for w in d or ()})
            for w in pref or {}:
                full.setdefault(w, 1.0)
        if len(set(L.values())) < len(L):
            return
        for s in texts + far + ['ab abab', ' ba\tabab ', '']:
            rec.state((tuple(case), s))
            got = compare(tok, s, L, R, Pl or {}, Pr or {}, STD, lambda: 'Dl=%r Dr=%r preferences %r %r builder %r' % (Dl, Dr, Pl, Pr, b), rec)
            rec.equal([tuple(x) for x in tok(s)], [x for g in got for x in g], 'flattened tokens of %r' % s)
            rec.outcome(len(got))
        rec.trace()

    # ---- every score order on a chain of nested words ----------------------
    chain = ['cd', 'bcd', 'bcde', 'de', 'e']
    values = [0.1, 0.3, 0.45, 0.7, 1.2]
    ctexts = ['bcde', 'cde', 'cdef', 'bcdef', 'abcde', 'abcdef', 'bcdefg', 'cdcd', 'bcdde', 'decde', 'bcdebcde', 'efde', 'cdefbcd']

    def run_chain(case, rec):
        perm, rm, opt = case
        L = dict(zip(chain, (values[i] for i in perm)))
        R = {w: s for i, (w, s) in enumerate([('e', 0.5), ('f', 0.8), ('ef', 0.2), ('d', 0.35), ('fg', 0.6)]) if rm >> i & 1}
        tok = MaxLRScoreTokenizer(Dl=L, Dr=R, **settings[opt])
        for s in ctexts:
            rec.state((tuple(perm), rm, opt, s))
            got = compare(tok, s, L, R, {}, {}, dict(STD, **settings[opt]), lambda: 'L=%r R=%r %r' % (L, R, settings[opt]), rec)
            rec.outcome(tuple(t for g in got for _, t in g))
        rec.trace()

    def run_scale(case, rec):
        k, cut, nl, opt, p = case
        seq = ''.join(gen.debruijn('abcd', k))
        scores = lambda i: 0.05 + (gen.mix(i * 17 + nl) % 100003) / 83000.0
        grams = sorted({seq[i:i + 1 + gen.mix(i) % 5] for i in range(0, len(seq), 1 + len(seq) // nl)})
        L = {w: scores(i) for i, w in enumerate(grams)}
        R = {seq[i + 2:i + 3 + gen.mix(i * 5) % 4]: scores(i + 5000) for i in range(0, len(seq) - 8, 1 + len(seq) // nl)}
        Pl, Pr = [({}, {}), ({grams[0]: 0.512345, 'abcda': 0.212345}, {'dd': 0.712345})][p]
        tok = MaxLRScoreTokenizer(Dl=L, Dr=R, preference_l=Pl or None, preference_r=Pr or None, **settings[opt])
        fullL, fullR = dict(L), dict(R)
        for w in Pl:
            fullL.setdefault(w, 1.0)
        for w in Pr:
            fullR.setdefault(w, 1.0)
        s = ' '.join(seq[i:i + cut] for i in range(0, min(len(seq), 40 * cut), cut)) + '\tab. a🙂b 가ab\u3000x'
        rec.state(tuple(case))
        got = compare(tok, s, fullL, fullR, Pl, Pr, dict(STD, **settings[opt]), lambda: '%r' % (case,), rec)
        rec.check([tuple(x) for x in tok(s)] == [x for g in got for x in g], 'flattened tokens of case %r', case)
        rec.outcome(sum(map(len, got)))
        rec.trace()

    def run_lengths(case, rec):
        nl, nr, kind = case
        seq = ''.join(gen.debruijn('abcd', 4))
        l, r, m = seq[:nl], seq[60:60 + nr], seq[100:100 + nl]
        L = [{l: 0.9, m: 0.7}, {l: 0.9, l[:2]: 0.2, m: 0.65, m[1:] or m: 0.1}, {l: 0.3, m: 0.8}][kind]
        R = [{r: 0.5}, {r: 0.45, r[:1]: 0.2}, {r: 0.5, 'b': 0.15}][kind]
        Pl, Pr = [({}, {}), ({}, {}), ({l: 0.4}, {r: 0.25})][kind]
        if len(set(L.values())) < len(L):
            return
        tok = MaxLRScoreTokenizer(Dl=L, Dr=R, preference_l=Pl or None, preference_r=Pr or None)
        for s in (l + r, 'x' + l + r + 'y', l + r + m + r, m + r + 'zz' + l, l + 'x' + r, r + l, l + ' ' + r):
            rec.state((nl, nr, kind, s))
            got = compare(tok, s, L, R, Pl, Pr, STD, lambda: 'L=%r R=%r %r' % (L, R, (Pl, Pr)), rec)
            rec.outcome(tuple(t for g in got for _, t in g))
        rec.trace()

    perms = [list(p) for p in itertools.permutations(range(5))]
    return [
        Harness('dictionaries', run_dicts, roots, chunk=32, about='subsets of 5 L and 5 R words x distinct scores x thresholds x preferences x all words over {a,b}', bound='words <= %d letters; %d configurations' % (6 if deep else 5, len(roots))),
        Harness('lengths', run_lengths, [[nl, nr, k] for nl in (2, 3, 5, 7, 8, 9, 10, 11, 12, 16, 17, 21, 33) for nr in (1, 2, 4, 6, 7, 8, 9, 10, 11, 12, 17, 33) for k in range(3)], chunk=8, about='L and R words of every length class', bound='parts <= 33'),
        Harness('scale', run_scale, [[k, c, nl, o, p] for k in (3, 4, 5) for c in (6, 11, 24, 60) for nl in (12, 40, 120) for o in (range(len(settings)) if deep else (0, 2, 4, 6)) for p in (0, 1)], chunk=4, about='long words and long texts in which every k-gram over four letters occurs, dictionaries of up to 120 L and R words', bound='words <= 60 letters'),
        Harness('given', run_given, [list(t) for t in itertools.product(range(len(given)), range(len(given_r)), range(4), range(4), range(2))], chunk=16, about='ways of giving the dictionaries: dict, list, set, none, preference only, builder', bound='complete over the menus'),
        Harness('score_orders', run_chain, [[p, r, o] for p in perms for r in (range(32) if deep else (0, 7, 31, 26, 1 + 4 + 16)) for o in (range(len(settings)) if deep else (0, 1, 2, 3, 6, 7))], chunk=32, about='every order of five scores on nested and overlapping L words x R subsets x thresholds', bound='5! orders'),
    ]
