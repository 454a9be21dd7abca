"""P02: edit distances."""
import itertools

from mc import gen, hangul
from mc.core import Harness

PROP = dict(
    id='P02',
    title='Edit distances equal the cheapest edit script, in both argument orders',
    statement=(
        'For every two strings, the Levenshtein distance equals the minimum total cost over all scripts of insertions (cost 1), deletions (cost 1) and substitutions that turn the first '
        'into the second, where replacing x by y costs 0 if x equals y, the value the caller gave for the ordered pair (x, y) if there is one, and 1 otherwise; this holds whichever string is longer and does not modify the cost table. '
        'The jamo distance is the same minimum where replacing one Hangul character (syllable or lone jamo) by another costs one third of the edit distance between their initial/vowel/final triples (absent parts are spaces) and any other replacement costs 1. '
        'Consequently both (without costs) are zero exactly on equal strings, symmetric and satisfy the triangle inequality.'),
    quantifier=dict(over=['inputs', 'configurations'], text='all pairs of strings and all substitution cost tables'),
    why_tests_cant='The test prints distances of one hand-picked word pair with a two-entry symmetric table and asserts nothing; argument order and table direction are never varied.',
    anchors=dict(
        files=['soynlp/hangle/_distance.py'],
        mechanism=[dict(name='levenshtein', where='soynlp/hangle/_distance.py'), dict(name='jamo_levenshtein', where='soynlp/hangle/_distance.py')],
        observe_at=['soynlp.hangle.levenshtein', 'soynlp.hangle.jamo_levenshtein'], hook_needed=None))

CHECK = dict(
    technique='bounded-exhaustive enumeration of string pairs x cost tables on the real functions against a shortest-edit-script reference',
    level_note='Every pair of strings up to the stated length over small alphabets, every assignment of costs from a 5-value menu to the ordered pairs of a 2-letter alphabet, plus a long structured family; outside the alphabet and length bounds nothing is claimed.',
    assumptions=['strings behave uniformly in the identity of letters outside the enumerated alphabets'])


def edit_cost(s1, s2, sub):
    """Cheapest edit script by the textbook recursion on suffixes (memoised)."""
    n, m = len(s1), len(s2)
    best = {}
    for i in range(n, -1, -1):
        for j in range(m, -1, -1):
            if i == n:
                v = m - j
            elif j == m:
                v = n - i
            else:
                v = min(best[i + 1, j] + 1, best[i, j + 1] + 1,
                        best[i + 1, j + 1] + (0 if s1[i] == s2[j] else sub(s1[i], s2[j])))
            best[i, j] = v
    return best[0, 0]


def jamo_sub(x, y):
    a, b = hangul.decompose(x), hangul.decompose(y)
    if a is None or b is None:
        return 1
    return edit_cost(a, b, lambda p, q: 1) / 3


def harnesses(tier):
    from soynlp.hangle import levenshtein, jamo_levenshtein
    deep = tier == 'thorough'
    menu = [None, 0, 0.25, 1.5, 3]
    alpha = 'ab'
    plen = 5 if deep else 4
    left = list(gen.words_upto('abc', plen))
    right = list(gen.words_upto('abc', plen))

    def run_plain(s1, rec):
        for s2 in right:
            rec.state((s1, s2))
            d = levenshtein(s1, s2)
            rec.close(d, edit_cost(s1, s2, lambda x, y: 1), 'levenshtein(%r,%r)' % (s1, s2))
            rec.outcome(d)
        rec.trace()
        rec.sample(s1)

    short = list(gen.words_upto(alpha, 4 if deep else 3))

    def run_costs(case, rec):
        vals = case
        pairs = [('a', 'b'), ('b', 'a')]
        cost = {p: v for p, v in zip(pairs, vals) if v is not None}
        # entries a caller may also supply: pairs that never occur and pairs between equal letters
        cost[('z', 'a')] = 0.0
        cost[('a', 'a')] = 7
        before = dict(cost)
        for s1 in short:
            for s2 in short:
                rec.state((tuple(vals), s1, s2))
                d = levenshtein(s1, s2, cost)
                rec.close(d, edit_cost(s1, s2, lambda x, y: cost.get((x, y), 1)), 'levenshtein(%r,%r,cost=%r)' % (s1, s2, before))
                rec.outcome(d)
        rec.equal(cost, before, 'cost table after the calls')
        rec.equal(levenshtein('ab', 'ba'), 2, 'levenshtein without costs after calls with costs')
        rec.trace()
        rec.sample(vals)

    def run_costs3(case, rec):
        # three letters, one priced ordered pair at a time, both lengths orders
        x, y, v = case
        cost = {(x, y): v}
        for s1 in gen.words_upto('abc', 3):
            for s2 in gen.words_upto('abc', 3):
                rec.state((x, y, v, s1, s2))
                rec.close(levenshtein(s1, s2, cost), edit_cost(s1, s2, lambda p, q: cost.get((p, q), 1)),
                          'levenshtein(%r,%r,cost={(%r,%r):%r})' % (s1, s2, x, y, v))
        rec.trace()
        rec.outcome('ok')
        rec.sample(case)

    jalpha = ['가', '각', '간', '너', '고', 'ㄱ', 'ㅏ', 'a']
    jright = list(gen.words_upto(jalpha, 3 if deep else 2))
    jleft = list(gen.words_upto(jalpha, 3))
    cache = {}

    def jsub(x, y):
        if (x, y) not in cache:
            cache[x, y] = jamo_sub(x, y)
        return cache[x, y]

    def run_jamo(s1, rec):
        for s2 in jright:
            rec.state((s1, s2))
            for p, q in ((s1, s2), (s2, s1)):
                d = jamo_levenshtein(p, q)
                rec.close(d, edit_cost(p, q, jsub), 'jamo_levenshtein(%r,%r)' % (p, q))
            rec.outcome('%.3f' % d)
        rec.trace()
        rec.sample(s1)

    partners = ['가', '각', '갃', '힣', '똠', '쀍', '아', '앙', '위', '왜', 'ㄱ', 'ㅎ', 'ㄳ', 'ㅏ', 'ㅣ', 'a', '1', ' ', '?', 'À']

    def run_syllables(case, rec):
        lo, hi = case
        for i in range(lo, hi):
            c = chr(0xAC00 + i) if i < 11172 else chr(0x3131 + i - 11172)
            for p in partners:
                rec.state((c, p))
                want = edit_cost(c, p, jamo_sub)
                rec.close(jamo_levenshtein(c, p), want, 'jamo_levenshtein(%r,%r)' % (c, p))
                rec.close(jamo_levenshtein(p, c), want, 'jamo_levenshtein(%r,%r)' % (p, c))
                rec.outcome('%.3f' % want)
        rec.trace()

    units = ['a', 'ab', '가나', '각ㄱ', 'aab가']
    lens = [0, 1, 5, 8, 9, 17, 33, 40] + ([70] if deep else [])

    def run_long(case, rec):
        u1, n1, u2, n2, ins = case
        s1 = (u1 * n1)[:n1]
        s2 = (u2 * n2)[:n2]
        mid = len(s2) // 2
        s2 = s2[:mid] + ins + s2[mid:]
        rec.state((s1, s2))
        rec.close(levenshtein(s1, s2), edit_cost(s1, s2, lambda x, y: 1), 'levenshtein(%r,%r)' % (s1, s2))
        rec.close(jamo_levenshtein(s1, s2), edit_cost(s1, s2, jsub), 'jamo_levenshtein(%r,%r)' % (s1, s2))
        cost = {('a', 'b'): 0.5, ('가', '나'): 0.25, ('x', 'a'): 2, ('b', 'x'): 0}
        rec.close(levenshtein(s1, s2, cost), edit_cost(s1, s2, lambda x, y: cost.get((x, y), 1)), 'levenshtein(%r,%r,cost=%r)' % (s1, s2, cost))
        rec.trace()
        rec.outcome('ok')
        rec.sample(case)

    def run_move(case, rec):
        # a block of distinct letters moved to the other end: the cheapest script runs far from the diagonal
        u, m, mix = case
        block = ''.join(chr(0x4e00 + i) for i in range(u))
        rest = ''.join(chr(0x5e00 + i) for i in range(m)) if mix != 'same' else 'a' * m
        s1, s2 = block + rest, rest + block
        if mix == 'cut':
            s2 = rest
        for x, y in ((s1, s2), (s2, s1)):
            rec.state((x, y))
            rec.close(levenshtein(x, y), edit_cost(x, y, lambda a, b: 1), 'levenshtein(%r,%r)' % (x, y))
            rec.close(jamo_levenshtein(x, y), edit_cost(x, y, lambda a, b: 1), 'jamo_levenshtein(%r,%r)' % (x, y))
        rec.trace()
        rec.outcome(mix)

    def run_scale(case, rec):
        # every 3-gram over six characters in a row, against a copy with a few edits
        k, n, edits = case
        base = ''.join(gen.debruijn(['가', '각', '나', 'ㄱ', 'a', '\u0301'], k))
        s1 = (base * (n // len(base) + 1))[:n]
        s2 = list(s1)
        for i in range(edits):
            at = gen.mix(i * 31 + n) % len(s2)
            if i % 3 == 0:
                s2[at] = 'b가갂🙂'[i % 4]
            elif i % 3 == 1:
                del s2[at]
            else:
                s2.insert(at, 'xㅎ하'[i % 3])
        s2 = ''.join(s2)
        cost = {('a', 'b'): 0.5, ('가', '갂'): 0.25, ('각', '가'): 0, ('\u0301', 'b'): 3, ('나', '가'): 0.125}
        for x, y in ((s1, s2), (s2, s1)):
            rec.state((k, n, edits, x == s1))
            rec.close(levenshtein(x, y), edit_cost(x, y, lambda a, b: 1), 'levenshtein of %d and %d characters' % (len(x), len(y)))
            rec.close(jamo_levenshtein(x, y), edit_cost(x, y, jsub), 'jamo_levenshtein of %d and %d characters' % (len(x), len(y)))
            rec.close(levenshtein(x, y, cost), edit_cost(x, y, lambda a, b: cost.get((a, b), 1)), 'levenshtein with costs of %d and %d characters' % (len(x), len(y)))
        rec.trace()
        rec.outcome(edits)

    moves = [0, 1, 2, 3, 5, 9, 17, 33] + ([48, 70] if deep else [])
    vals6 = [0, 0.25, 0.5, 1, 2.5]
    return [
        Harness('plain_pairs', run_plain, left, chunk=16, about='all ordered pairs of strings over {a,b,c}', bound='length <= %d' % plen),
        Harness('cost_tables', run_costs, [list(t) for t in itertools.product(menu, repeat=2)],
                about='all cost tables (5 values per ordered pair of a 2-letter alphabet) x all ordered string pairs', bound='length <= %d' % (4 if deep else 3)),
        Harness('one_priced_pair', run_costs3, [[x, y, v] for x in 'abc' for y in 'abc' for v in vals6 if x != y],
                about='each single priced ordered pair over 3 letters x all string pairs', bound='length <= 3'),
        Harness('jamo_pairs', run_jamo, jleft, chunk=8, about='all pairs over 8 characters (syllables sharing parts, lone jamo, Latin), both orders', bound='length <= 3 vs <= %d' % (3 if deep else 2)),
        Harness('jamo_substitution', run_syllables, gen.blocks(11172 + 51, 512), about='every Hangul character against 20 partners, both orders', bound='complete in the first argument'),
        Harness('long', run_long, [list(t) for t in itertools.product(units, lens, units, lens, ['', 'x'])], chunk=64, about='periodic strings with one insertion', bound='length <= %d' % (lens[-1] + 1)),
        Harness('scale', run_scale, [[3, n, e] for n in (130, 260) + ((520, 1030) if deep else (520,)) for e in (0, 1, 2, 7, 40)], about='long strings with every 3-gram over six characters against edited copies, both orders', bound='length <= %d' % (1030 if deep else 520)),
        Harness('block_moves', run_move, [list(t) for t in itertools.product(moves, moves, ['move', 'same', 'cut'])], chunk=8,
                about='a block of distinct letters moved to the other end, or cut', bound='block and rest <= %d' % moves[-1]),
    ]
