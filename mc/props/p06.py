"""P06: repeat and emoticon normalization."""
import itertools

from mc import gen, hangul
from mc.core import Harness
from mc.props.p05 import reduce_runs, squeeze

PROP = dict(
    id='P06',
    title='Repeat and emoticon normalization lose no jamo and reduce exactly the long runs',
    statement=(
        'For every text, emoticon normalization first separates a complete syllable into jamo only where it touches a lone consonant equal to its final consonant (before it) or, for a syllable without final, a lone consonant equal to its initial consonant (after it), leaving every other character unchanged, so that the sequence of jamo and other characters is exactly that of the input. '
        'Then each maximal run of three or more equal word characters (letters, digits, underscore) becomes exactly the requested number of copies, shorter runs stay, whitespace is collapsed and trimmed, and a request of zero copies leaves runs alone; repeat normalization alone does exactly this second step. '
        'The tokenizer-level normalizer works per blank-separated token: it separates likewise without losing jamo, and then reduces four or more consecutive copies of a unit of four, then three, two and one word characters to the requested number.'),
    quantifier=dict(over=['inputs', 'configurations'], text='all texts and repeat settings'),
    why_tests_cant='No test calls these functions; a lost syllable or final consonant needs a particular pairing of neighbouring syllable and lone jamo.',
    anchors=dict(
        files=['soynlp/normalizer/_normalizer.py', 'soynlp/tokenizer/_normalizer.py'],
        mechanism=[dict(name='emoticon_normalize', where='soynlp/normalizer/_normalizer.py'), dict(name='repeat_normalize', where='soynlp/normalizer/_normalizer.py'),
                   dict(name='_normalize_emoji / _remove_repeat', where='soynlp/tokenizer/_normalizer.py')],
        observe_at=['soynlp.normalizer.emoticon_normalize', 'soynlp.normalizer.repeat_normalize', 'soynlp.tokenizer._normalizer.normalize'], hook_needed=None))

CHECK = dict(
    technique='bounded-exhaustive enumeration of texts over colliding jamo/syllable alphabets on the real functions against a jamo-level reference model',
    level_note='All texts up to the stated length over an alphabet in which initial, final and lone consonants collide in every combination, all syllables between all relevant neighbours, all run-length pairs; outside these bounds nothing is claimed.',
    assumptions=['a lone vowel after the syllable decides nothing except as stated'])


def split_emoticons(s):
    """The separation step as the documentation describes it (ㅋ쿠ㅜ -> ㅋㅋㅜㅜ, 앜ㅋ -> 아ㅋㅋ)."""
    out = []
    for i, c in enumerate(s):
        p = s[i - 1] if i else ''
        q = s[i + 1] if i + 1 < len(s) else ''
        if hangul.is_syllable(c):
            cho, jung, jong = hangul.decompose(c)
            if p and hangul.is_jaum(p) and q and hangul.is_moum(q):
                if cho == p and jung == q and jong == ' ':
                    out.append(cho + jung)
                    continue
            elif q and hangul.is_jaum(q):
                if jong == q:
                    out.append(hangul.compose(cho, jung, ' ') + jong)
                    continue
            elif p and hangul.is_jaum(p):
                if cho == p and jong == ' ':
                    out.append(cho + jung)
                    continue
        out.append(c)
    return ''.join(out)


def emoticon(s, k):
    return squeeze(reduce_runs(split_emoticons(s), 3, k))


def split_token(s):
    """Tokenizer-level separation, by adjacent pairs."""
    out = []
    for i, c in enumerate(s):
        d = hangul.decompose(c)
        nd = hangul.decompose(s[i + 1]) if i + 1 < len(s) else None
        if d is not None and nd is not None:
            lone_consonant_next = nd[1] == ' '
            lone_vowel_next = nd[0] == ' '
            if lone_consonant_next and d[2] == nd[0]:
                out.append(hangul.compose(d[0], d[1], ' ') + nd[0])
                continue
            if lone_vowel_next and d[2] == ' ' and d[1] == nd[1]:
                out.append((d[0] if d[0] != ' ' else '') + d[1])
                continue
        out.append(c)
    return ''.join(out)


def reduce_units(s, k):
    """>= 4 consecutive copies of a unit of n word characters -> k copies, n = 4,3,2,1, leftmost first."""
    if k <= 0:
        return s
    for n in (4, 3, 2, 1):
        out, i = [], 0
        while i < len(s):
            u = s[i:i + n]
            if len(u) == n and all(c.isalnum() or c == '_' for c in u):
                m = 1
                while s[i + m * n:i + (m + 1) * n] == u:
                    m += 1
                if m >= 4:
                    out.append(u * k)
                    i += m * n
                    continue
            out.append(s[i])
            i += 1
        s = ''.join(out)
    return s


def tok_normalize(s, k):
    return ' '.join(reduce_units(split_token(t), k) for t in s.split())


def harnesses(tier):
    from soynlp.normalizer import emoticon_normalize, repeat_normalize
    from soynlp.tokenizer._normalizer import normalize as token_normalize
    deep = tier == 'thorough'

    def check(s, rec, ks=(0, 1, 2, 3)):
        rec.state(s)
        for k in ks:
            got = emoticon_normalize(s, k)
            if k == 0:
                rec.equal(hangul.jamo_text(got), hangul.jamo_text(squeeze(s)), 'jamo of emoticon_normalize(%r, 0)' % s)
                rec.outcome(len(got) - len(s))
            rec.equal(got, emoticon(s, k), 'emoticon_normalize(%r, %d)' % (s, k))
            rec.equal(repeat_normalize(s, k), squeeze(reduce_runs(s, 3, k)), 'repeat_normalize(%r, %d)' % (s, k))
            got = token_normalize(s, k)
            if k == 0:
                rec.equal(hangul.jamo_text(got), hangul.jamo_text(squeeze(s)), 'jamo of tokenizer normalize(%r, 0)' % s)
            rec.equal(got, tok_normalize(s, k), 'tokenizer normalize(%r, %d)' % (s, k))

    alpha = ['ㅋ', 'ㅜ', '쿠', '앜', '쿸', '가', 'ㄱ', 'a', ' ']
    n = 6 if deep else 5

    def run_text(s, rec):
        check(s, rec)
        rec.trace()
        rec.sample(s)

    left = ['', 'ㅋ', 'ㄱ', 'ㅏ', '가', 'a', ' ']
    right = ['', 'ㅋ', 'ㄱ', 'ㄳ', 'ㅏ', 'ㅜ', '가', 'a', ' ']

    def run_syl(case, rec):
        lo, hi = case
        for i in range(lo, hi):
            c = chr(i)
            d = hangul.decompose(c)
            ls = dict.fromkeys(left + [d[0] if d[0] != ' ' else 'ㅎ'])
            rs = dict.fromkeys(right + [x for x in d if x != ' '])
            for p in ls:
                for q in rs:
                    s = p + c + q
                    rec.state(s)
                    rec.equal(emoticon_normalize(s, 0), emoticon(s, 0), 'emoticon_normalize(%r, 0)' % s)
                    rec.equal(token_normalize(s, 0), tok_normalize(s, 0), 'tokenizer normalize(%r, 0)' % s)
        rec.trace()
        rec.outcome('ok')

    ualpha = 'ab'
    m = 16 if deep else 13

    def run_units(s, rec):
        rec.state(s)
        for k in (1, 2, 3):
            rec.equal(token_normalize(s, k), tok_normalize(s, k), 'tokenizer normalize(%r, %d)' % (s, k))
            rec.equal(repeat_normalize(s, k), squeeze(reduce_runs(s, 3, k)), 'repeat_normalize(%r, %d)' % (s, k))
        rec.trace()
        rec.outcome(len(tok_normalize(s, 2)))

    pieces = ['ㅋ', 'ㅎㅎ', '아', '하하', '1', '_', '!', 'é', 'ab가', 'abcd', '쿠']
    lens = [1, 2, 3, 4, 5, 12, 40]

    def run_runs(case, rec):
        s = ''.join(pieces[c] * lens[k] + sep for c, k, sep in case)
        check(s, rec, ks=(0, 1, 2, 3, 5, 10))
        rec.trace()
        rec.sample(s)

    cells = [[c, k, sep] for c in range(len(pieces)) for k in range(len(lens)) for sep in ('',)]

    def run_blocks(case, rec):
        lo, hi = case
        for i in range(lo, hi):
            c = chr(i)
            s = 'x' + c * 5 + '가' + c + c
            rec.state(s)
            rec.equal(repeat_normalize(s, 2), squeeze(reduce_runs(s, 3, 2)), 'repeat_normalize(%r, 2)' % s)
            rec.equal(emoticon_normalize(s, 2), emoticon(s, 2), 'emoticon_normalize(%r, 2)' % s)
            rec.equal(token_normalize(s, 2), tok_normalize(s, 2), 'tokenizer normalize(%r, 2)' % s)
        rec.trace()
        rec.outcome('ok')

    def run_scale(case, rec):
        k, chars, n = case
        base = ''.join(gen.debruijn(list(chars), k))
        s = (base * (n // len(base) + 1))[:n] if n else base
        check(s, rec, ks=(0, 1, 2, 3, 9))
        rec.trace()

    scales = [[4, 'ㅋㅜ쿠앜쿸가ㄱa ', 0], [3, 'ㅋㄱㅏㅜ쿠꺼가각앜후ㅎa1_! ', 0], [5, 'ㅋㅜ쿠가앜', 0], [9, 'ab', 0], [5, 'ab1', 0]]
    scales += [[1, c, n] for c in 'ㅋ쿠a1_!가' for n in (299, 5003, 70001)] + [[2, c, n] for c in ('ㅋㅋ쿠', 'ab', '하히', 'ㅋㅜ') for n in (299, 5003, 66001)]
    top = 0x110000 if deep else 0x10000
    return [
        Harness('texts', run_text, gen.prefix_roots(alpha, n), expand=gen.expand_prefix(alpha), chunk=2, about='all texts over 9 colliding characters x 4 repeat settings x 3 functions', bound='length <= %d' % n),
        Harness('syllables', run_syl, [[lo, min(lo + 128, 0xD7A4)] for lo in range(0xAC00, 0xD7A4, 128)] + [[0x3131, 0x3164]], about='every Hangul character between all relevant left and right neighbours', bound='complete in the middle character'),
        Harness('unit_runs', run_units, gen.prefix_roots(ualpha, m, depth=4), expand=gen.expand_prefix(ualpha), chunk=2, about='all texts over a 2-letter alphabet: nested repeats of units of 1-4', bound='length <= %d' % m),
        Harness('scale', run_scale, scales, about='long texts in which every 2- to 9-gram occurs, and long runs', bound='70000 characters'),
        Harness('run_pairs', run_runs, [[a, b] for a in cells for b in cells], chunk=64, about='all pairs of repeated units x run lengths', bound='2 runs, length <= 320'),
        Harness('run_chars', run_blocks, gen.blocks(top, 0x400), about='a run of every code point', bound='complete below U+%X' % top),
    ]
