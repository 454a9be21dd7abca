"""P11: RegexTokenizer script boundaries."""
import contextlib
import io
import itertools

from mc import gen
from mc.core import Harness

PROP = dict(
    id='P11',
    title='The regex tokenizer cuts exactly at changes of character class',
    statement=(
        'For every text, the regular-expression tokenizer first isolates numbers (digits with at most one decimal point and an optional leading sign, leftmost longest), and then, in what is left of each word, maximal runs of complete Hangul syllables, of lone consonants, of lone vowels, and of Latin letters (A-Z, a-z, À to ÿ) together with any number of \'s or `s suffixes; what remains between these is one token per stretch. '
        'So no token mixes two of these classes, no run of one class is cut, and the debugging option only prints (and nothing else does).'),
    quantifier=dict(over=['inputs'], text='all texts'),
    why_tests_cant='The test prints the tokens of a single sentence; English words containing the letter s, borders of the character classes and sign/decimal combinations are never asserted.',
    anchors=dict(files=['soynlp/tokenizer/_tokenizer.py'], mechanism=[dict(name='RegexTokenizer._patterns / _tokenize', where='soynlp/tokenizer/_tokenizer.py')],
                 observe_at=['RegexTokenizer.tokenize'], hook_needed=None))

CHECK = dict(
    technique='bounded-exhaustive enumeration of texts (all short texts over class representatives, all code points) on the real tokenizer against a hand-written scanner',
    level_note='All texts up to the stated length over representatives of every class, every code point in four contexts, long periodic texts. The scanner does not use regular expressions.',
    assumptions=['decimal digits are the characters with Unicode category Nd'])


def is_digit(c):
    return c.isdecimal()


def scan_number(s, i):
    """End of the number starting at i, or None: [sign] digits* [.] digits+ (greedy), so '1.' is '1'."""
    j = i
    if j < len(s) and s[j] in '-+':
        j += 1
    k = j
    while k < len(s) and is_digit(s[k]):
        k += 1
    if k < len(s) and s[k] == '.' and k + 1 < len(s) and is_digit(s[k + 1]):
        k += 1
        while k < len(s) and is_digit(s[k]):
            k += 1
        return k
    return k if k > j else None


def cut(segments, scan):
    out = []
    for kind, s in segments:
        if kind:
            out.append((kind, s))
            continue
        i = start = 0
        while i < len(s):
            e = scan(s, i)
            if e is None:
                i += 1
                continue
            if i > start:
                out.append((0, s[start:i]))
            out.append((1, s[i:e]))
            i = start = e
        if start < len(s):
            out.append((0, s[start:]))
    return out


def runs(pred):
    def scan(s, i):
        e = i
        while e < len(s) and pred(s[e]):
            e += 1
        return e if e > i else None
    return scan


def latin(c):
    return 'a' <= c <= 'z' or 'A' <= c <= 'Z' or 'À' <= c <= 'ÿ'


def scan_english(s, i):
    e = runs(latin)(s, i)
    if e is None:
        return None
    while s[e:e + 2] in ("'s", '`s'):
        e += 2
    return e


def reference(word):
    seg = [(0, word)]
    for scan in (scan_number, runs(lambda c: '가' <= c <= '힣'), runs(lambda c: 'ㄱ' <= c <= 'ㅎ'), runs(lambda c: 'ㅏ' <= c <= 'ㅣ'), scan_english):
        seg = cut(seg, scan)
    return [s for _, s in seg]


def harnesses(tier):
    from soynlp.tokenizer import RegexTokenizer
    deep = tier == 'thorough'
    tok = RegexTokenizer()

    def check(s, rec):
        rec.state(s)
        want = [reference(w) for w in s.split()]
        got = tok.tokenize(s, flatten=False)
        rec.equal([list(g) for g in got], want, 'regex tokens of %r' % s)
        rec.outcome(tuple(map(len, want)))

    def run(s, rec):
        check(s, rec)
        rec.trace()
        rec.sample(s)

    def run_flat(s, rec):
        check(s, rec)
        flat = [t for w in s.split() for t in reference(w)]
        with contextlib.redirect_stdout(io.StringIO()) as printed:
            rec.equal(list(tok.tokenize(s)), flat, 'flat regex tokens of %r' % s)
            tok(s)
        rec.equal(printed.getvalue(), '', 'what is printed without debug for %r' % s)
        rec.equal(list(tok.tokenize(s, debug=True)), flat, 'regex tokens of %r with debug' % s)
        rec.equal(list(tok(s)), flat, 'regex() tokens of %r' % s)
        rec.trace()

    alpha = ['1', '.', '-', '+', '가', 'ㅋ', 'ㅜ', 's', 'a', "'", '`', '[', 'é', ' ']
    n = 5 if deep else 4
    num = ['1', '2', '.', '-', '가', 'a']
    nn = 8 if deep else 7
    eng = ['s', 'a', "'", '`', ']', '가', ' ']
    ne = 7 if deep else 6

    def run_block(case, rec):
        lo, hi = case
        for i in range(lo, hi):
            c = chr(i)
            for s in ('가' + c + 'a', c + c + '1', 'ㅋ' + c + "'s" + c + 'ㅜ', c):
                check(s, rec)
        rec.trace()

    def run_scale(case, rec):
        k, chars, n, sep = case
        base = ''.join(gen.debruijn(list(chars), k))
        s = (base * (n // len(base) + 1))[:n] if n else base
        if sep:
            s = sep.join(s[i:i + 5 + i % 7] for i in range(0, len(s), 5))
        rec.state(tuple(case))
        want = [reference(w) for w in s.split()]
        rec.step(len(s))
        got = [list(g) for g in tok.tokenize(s, flatten=False)]
        rec.check(len(got) == len(want), 'number of words of long text %r', case)
        for w, g, r in zip(s.split(), got, want):
            rec.check(g == r, 'regex tokens of a word in long text %r: implementation gives %.300r, reference gives %.300r', case, [x for x in g if x not in r] or g, [x for x in r if x not in g] or r)
        rec.check(list(tok.tokenize(s)) == [t for w in want for t in w], 'flat regex tokens of long text %r', case)
        rec.trace()
        rec.outcome(len(want))

    longs = [u * k for u in ['가나1.5', 'abs ', "it's", 'ㅋㅋㅜ', '-1.2+3', 'class`s', 'a가', '1 ', 'x' * 9 + '가' * 9 + '7' * 9] for k in (5, 30, 120)]
    docs = ['이거에서+3.12같은34숫자나-1.2like float해해 같은aÀÿfafAis`s-1찾아서3.1.2.1해ㅋㅋㅜㅠ봐 Bob`s job.1']
    return [
        Harness('texts', run, gen.prefix_roots(alpha, n), expand=gen.expand_prefix(alpha), chunk=4, about='all texts over 14 class representatives', bound='length <= %d' % n),
        Harness('numbers', run, gen.prefix_roots(num, nn), expand=gen.expand_prefix(num), chunk=2, about='all texts over digits, point, sign and neighbours', bound='length <= %d' % nn),
        Harness('english', run, gen.prefix_roots(eng, ne), expand=gen.expand_prefix(eng), chunk=2, about="all texts over s, a, ', ` and neighbours", bound='length <= %d' % ne),
        Harness('code_points', run_block, gen.blocks(0x110000 if deep else 0x12000, 0x400), about='every code point in four contexts', bound='complete' if deep else 'complete below U+12000'),
        Harness('scale', run_scale, [[k, c, n, sep] for k, c, n in ((4, "1.-+가ㅋㅜsa'`[é_", 0), (6, "1.-가", 0), (7, "a's", 0), (3, "1٣²Ⅳ.-+−a가À÷×ß\u0301ㄱㆎ🙂", 0), (1, '1', 5000), (1, 'ㅋ', 70000), (2, 'a가', 30000)) for sep in ('', ' ', '\t', '\u3000\n')], about='long texts in which every k-gram of the classes occurs, cut into words in four ways', bound='70000 characters'),
        Harness('long', run_flat, longs + docs, about='long periodic texts, documentation example, debug option', bound='length <= 3300'),
    ]
