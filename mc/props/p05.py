"""P05: character filters of the normalizers."""
import itertools

from mc import gen, hangul
from mc.core import Harness

PROP = dict(
    id='P05',
    title='Text filters keep exactly their character classes, in order, on every input',
    statement=(
        'For every text, the Hangul, Hangul-and-number and text filters replace each character outside their class (Hangul; plus 0-9; plus English letters and , . ? ! " \' ( ) [ ] { }) by a blank, keep every other character in order, and collapse and trim whitespace; the configurable normalizers do the same for exactly the classes switched on by their options, '
        'applying repeat reduction as documented, and all of them are idempotent. '
        'Trimming an eojeol to its last Hangul character cuts everything after that character (empty when there is none), and sentence normalization for the L-R graph applies the text filter without brackets and then that trimming to every eojeol, dropping the empty ones. '
        'The status of the hyphen and the backquote in the text filter is left open.'),
    quantifier=dict(over=['inputs', 'configurations'], text='all texts, all option combinations'),
    why_tests_cant='No test calls these functions with assertions; the character classes are regular-expression ranges whose borders no example touches.',
    anchors=dict(
        files=['soynlp/normalizer/_normalizer.py', 'soynlp/hangle/_hangle.py'],
        mechanism=[dict(name='hangle_filter / hangle_number_filter / text_filter', where='soynlp/normalizer/_normalizer.py'),
                   dict(name='normalize', where='soynlp/normalizer/_normalizer.py'), dict(name='normalize', where='soynlp/hangle/_hangle.py'),
                   dict(name='remain_hangle_on_last / normalize_sent_for_lrgraph', where='soynlp/normalizer/_normalizer.py')],
        observe_at=['soynlp.normalizer.*', 'soynlp.hangle.normalize'], hook_needed=None))

CHECK = dict(
    technique='exhaustive enumeration: all code points in four contexts and all short texts over one representative per class and border, times all option combinations, against a set-based model',
    level_note='Complete over single characters (every code point except the two left open), exhaustive over texts up to the stated length over 15 class representatives; longer interactions are covered only by the periodic long family.',
    assumptions=['hyphen and backquote are unspecified for the text filter and are not fed to it'])

ENGLISH = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ')
DIGITS = set('0123456789')
TEXT_PUNCT = set(',.?!"\'()[]{}')


def is_word(c):
    return c.isalnum() or c == '_'


def squeeze(s):
    return ' '.join(s.split())


def keep(s, pred):
    return squeeze(''.join(c if pred(c) else ' ' for c in s))


def only_hangle(s):
    return keep(s, hangul.is_hangul)


def only_hangle_number(s):
    return keep(s, lambda c: hangul.is_hangul(c) or c in DIGITS)


def in_text(c):
    return hangul.is_hangul(c) or c in DIGITS or c in ENGLISH or c in TEXT_PUNCT


def only_text(s):
    return keep(s, in_text)


def reduce_runs(s, least, k):
    """Every maximal run of at least `least` equal word characters becomes k copies."""
    if k <= 0:
        return s
    out = []
    for c, g in itertools.groupby(s):
        n = len(list(g))
        out.append(c * (k if is_word(c) and n >= least else n))
    return ''.join(out)


def normalize(s, alphabet, number, punctuation, symbol, remove_repeat):
    def ok(c):
        if not in_text(c):
            return False
        if c in ENGLISH:
            return alphabet
        if c in DIGITS:
            return number
        if c in ',.?!':
            return punctuation
        if c in '()[]{}':
            return symbol
        return True
    s = ''.join(c if ok(c) else ' ' for c in s)
    return squeeze(reduce_runs(s, 3, remove_repeat))


def hangle_normalize(s, english, number, punctuation, remove_repeat, remains):
    s = reduce_runs(s, 4, remove_repeat)

    def ok(c):
        return (hangul.is_hangul(c) or (english and c in ENGLISH) or (number and c in DIGITS)
                or (punctuation and c in '!"\',.?`') or c in remains)
    return squeeze(''.join(c if ok(c) else ' ' for c in s))


def remain_last(s):
    for i in range(len(s) - 1, -1, -1):
        if hangul.is_hangul(s[i]):
            return s[:i + 1].strip()
    return ''


def for_lrgraph(s):
    s = ''.join(c if in_text(c) and c not in '()[]{}' else ' ' for c in s)
    return ' '.join(e for e in (remain_last(e) for e in s.split()) if e)


def remove_doublespace(s):
    out, blank = [], False
    for c in s:
        if c.isspace():
            if not blank:
                out.append(' ')
            blank = True
        else:
            out.append(c)
            blank = False
    return ''.join(out)


def harnesses(tier):
    from soynlp import normalizer as N
    from soynlp import hangle as H
    deep = tier == 'thorough'
    flags = list(itertools.product([False, True], repeat=4))
    hflags = list(itertools.product([False, True], repeat=3))

    simple = [('only_hangle', N.only_hangle, only_hangle), ('only_hangle_number', N.only_hangle_number, only_hangle_number),
              ('only_text', N.only_text, only_text), ('remain_hangle_on_last', N.remain_hangle_on_last, remain_last),
              ('normalize_sent_for_lrgraph', N.normalize_sent_for_lrgraph, for_lrgraph), ('remove_doublespace', N.remove_doublespace, remove_doublespace)]

    def check_simple(s, rec, idem=True):
        rec.state(s)
        for name, f, ref in simple:
            got = f(s)
            rec.equal(got, ref(s), '%s(%r)' % (name, s))
            if idem:
                rec.equal(f(got), got, '%s applied twice to %r' % (name, s))
        rec.outcome(len(got))

    def check_options(s, rec, repeats=(0, 2), fl=flags, hfl=hflags):
        rec.state(s)
        for a, n, p, y in fl:
            for k in repeats:
                rec.equal(N.normalize(s, alphabet=a, number=n, punctuation=p, symbol=y, remove_repeat=k), normalize(s, a, n, p, y, k),
                          'normalize(%r, alphabet=%s, number=%s, punctuation=%s, symbol=%s, remove_repeat=%d)' % (s, a, n, p, y, k))
        for e, n, p in hfl:
            for k in repeats:
                for remains in ({}, {'_', 'é', 'a', '?'}):
                    rec.equal(H.normalize(s, english=e, number=n, punctuation=p, remove_repeat=k, remains=remains), hangle_normalize(s, e, n, p, k, remains),
                              'hangle.normalize(%r, english=%s, number=%s, punctuation=%s, remove_repeat=%d, remains=%r)' % (s, e, n, p, k, remains))

    def run_block(case, rec):
        lo, hi = case
        chars = [chr(i) for i in range(lo, hi) if chr(i) not in '-`']
        size = 128
        for k in range(0, len(chars), size):
            part = chars[k:k + size]
            for s in ('가'.join(part), '가'.join(part) + '가', ''.join(part), '나' + ' '.join(part)):
                check_simple(s, rec, idem=False)
            check_options('가'.join(part), rec, fl=flags, hfl=hflags)
        rec.trace()
        rec.sample(case)

    def run_near(case, rec):
        lo, hi = case
        for i in range(lo, hi):
            c = chr(i)
            if c in '-`':
                continue
            for s in (c, '가' + c, c + '가', '가' + c + '나', 'a' + c + ' ' + c):
                check_simple(s, rec)
            check_options('가' + c + '나' + c, rec)
        rec.trace()

    alpha = ['가', 'ㅋ', 'ㅣ', 'a', 'Z', '0', '9', ',', '"', "'", '(', ']', ' ', '\t', '_', 'é']
    n = 4 if deep else 3

    def run_text(s, rec):
        check_simple(s, rec)
        check_options(s, rec, repeats=(0, 1, 2, 3))
        rec.trace()
        rec.sample(s)

    small = ['가', 'a', '1', '?', '(', ' ']
    m = 7 if deep else 6

    def run_small(s, rec):
        check_simple(s, rec)
        rec.trace()

    run_alpha = ['가', 'a', '1', '_', '!']
    lens = [1, 2, 3, 4, 5, 9]

    def run_runs(case, rec):
        s = ''.join(run_alpha[c] * lens[k] for c, k in case)
        check_simple(s, rec, idem=False)
        check_options(s, rec, repeats=(0, 1, 2, 3, 5))
        rec.trace()
        rec.sample(s)

    def run_scale(case, rec):
        # one long text in which every k-gram of the classes occurs
        k, chars, n = case
        base = ''.join(gen.debruijn(list(chars), k))
        s = (base * (n // len(base) + 1))[:n] if n else base
        check_simple(s, rec)
        if k <= 3 or deep:
            check_options(s, rec, repeats=(0, 1, 2, 7))
        rec.trace()

    longs = [u * k for u in ['가나a 1', 'ㅋㅋㅎ?? ', '(똠방1)각하[a] ', 'abc가 \n\t', 'x', '가', ' '] for k in (30, 300)]
    cells = [list(t) for t in itertools.product(range(5), range(6))]
    return [
        Harness('code_points', run_block, gen.blocks(0x110000, 0x800), about='every code point in four contexts, all functions, all option combinations', bound='complete'),
        Harness('borders', run_near, [[0, 128], [128, 256], [0x1100, 0x1110], [0x3120, 0x3150], [0x3150, 0x3170], [0xABF0, 0xAC10], [0xD790, 0xD7B0], [0x2000, 0x2030], [0xFF10, 0xFF20]], about='characters around every class border, one by one, five contexts', bound='complete in the listed blocks'),
        Harness('texts', run_text, gen.prefix_roots(alpha, n), expand=gen.expand_prefix(alpha), chunk=4, about='all texts over 16 representatives x all options x 4 repeat settings', bound='length <= %d' % n),
        Harness('small_alphabet', run_small, gen.prefix_roots(small, m), expand=gen.expand_prefix(small), chunk=2, about='all texts over 6 representatives, fixed filters', bound='length <= %d' % m),
        Harness('runs', run_runs, [[a, b] for a in cells for b in cells] + ([[a, b, c] for a in cells for b in cells[:12] for c in cells] if deep else []), chunk=32, about='all pairs of runs (5 characters x 6 run lengths)', bound='2 runs' if not deep else '3 runs'),
        Harness('scale', run_scale, [[4, '가ㅋㅣaZ09,"\'(] \t_é', 0], [3, '가ㅋaZ0?!{) \n_é\u200b漢\u3000', 0], [5, '가a1?( ', 0], [2, '가 ', 70000], [2, 'a1', 70000], [1, '가', 70000], [1, 'ㅋ', 300], [1, '!', 5000], [3, '가각\r\x0c\x1f\u2028\xa0b', 0]], about='long texts in which every 2- to 5-gram over the representatives occurs', bound='70000 characters'),
        Harness('long', lambda s, rec: (check_simple(s, rec), check_options(s, rec), rec.trace()), longs, about='long periodic texts', bound='length <= 3000'),
    ]
