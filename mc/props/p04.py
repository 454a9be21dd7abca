"""P04: ConvolutionHangleEncoder."""
import itertools

from mc import gen, hangul
from mc.core import Harness

PROP = dict(
    id='P04',
    title='The convolution Hangul encoder loses nothing of the text it can express',
    statement=(
        'Encoding a text to index tuples and decoding it again yields the text with every character other than Hangul, digits 0-9 and blanks replaced by a blank, blanks collapsed to one and trimmed. '
        'Every tuple is one index for a lone jamo, digit or blank and three indices (one in the initial, one in the vowel, one in the final range) for a syllable, distinct characters get distinct tuples, and the one-hot matrix has one row per character with ones exactly at those indices and 80 columns. '
        'Decoding rejects with ValueError a triple whose parts lie outside their ranges and a single index outside 0..79.'),
    quantifier=dict(over=['inputs'], text='all texts and all index tuples'),
    why_tests_cant='The test encodes one phrase and prints it; no round trip or range is asserted.',
    anchors=dict(
        files=['soynlp/hangle/_hangle.py'],
        mechanism=[dict(name='ConvolutionHangleEncoder.sent_to_onehot / onehot_to_sent / encode', where='soynlp/hangle/_hangle.py')],
        state=[dict(name='index tables', meaning='jamo, digits, blank and unknown mapped to 0..79', where='soynlp/hangle/_hangle.py')],
        observe_at=['sent_to_onehot', 'onehot_to_sent', 'encode'], hook_needed=None))

CHECK = dict(
    technique='exhaustive enumeration of all characters and all short texts on the real encoder against an inverse-pair model',
    level_note='All code points (in context), all texts up to the stated length over one representative per character class, and all index triples on the range borders; one encoder object is reused for the whole history.',
    assumptions=[])


def expressible(c):
    return hangul.is_hangul(c) or c in '0123456789'


def norm(s):
    return ' '.join(''.join(c if expressible(c) else ' ' for c in s).split(' ')).strip() if False else \
        ' '.join(''.join(c if expressible(c) else ' ' for c in s).split())


def harnesses(tier):
    from soynlp.hangle import ConvolutionHangleEncoder
    deep = tier == 'thorough'
    enc = ConvolutionHangleEncoder()
    J, G = 19, 40

    def tuple_of(c):
        if hangul.is_syllable(c):
            a, b, d = hangul.decompose(c)
            return (hangul.CHO.index(a), J + hangul.JUNG.index(b), G + hangul.JONG.index(d))
        return None

    def check_text(s, rec, matrix=True):
        want = norm(s)
        rec.state(s)
        codes = enc.sent_to_onehot(s)
        rec.equal(len(codes), len(want), 'number of encoded characters of %r' % s)
        for c, t in zip(want, codes):
            t = tuple(t)
            if hangul.is_syllable(c):
                rec.equal(t, tuple_of(c), 'code of %r in %r' % (c, s))
            else:
                rec.check(len(t) == 1 and 0 <= t[0] < 80, 'code of %r in %r is %r' % (c, s, t))
                if c in '0123456789':
                    rec.equal(t, (68 + int(c),), 'code of %r in %r' % (c, s))
        rec.equal(enc.onehot_to_sent(codes), want, 'decode(encode(%r))' % s)
        if matrix:
            x = enc.encode(s)
            rec.equal(tuple(x.shape), (len(want), 80), 'matrix shape for %r' % s)
            for i, t in enumerate(codes):
                rec.equal(sorted(x[i].nonzero()[0].tolist()), sorted(t), 'ones of row %d for %r' % (i, s))
                rec.check(x[i].sum() == len(t), 'row %d of %r is not one-hot' % (i, s))
        rec.outcome(len(want))

    def run_block(case, rec):
        lo, hi = case
        chars = [chr(i) for i in range(lo, hi)]
        for k in range(0, len(chars), 64):
            part = chars[k:k + 64]
            check_text('가'.join(part), rec, matrix=k % 1024 == 0)
            check_text(''.join(part), rec, matrix=False)
        rec.trace()
        rec.sample(case)

    def run_hangul(case, rec):
        lo, hi = case
        for i in range(lo, hi):
            c = chr(i)
            check_text(c, rec)
            check_text('a' + c + '1' + c, rec, matrix=False)
        rec.trace()

    seen = {}

    def run_distinct(case, rec):
        seen.clear()
        for i in itertools.chain(range(0x20, 0x7f), range(0x3131, 0x3164), range(0xAC00, 0xD7A4)):
            c = chr(i)
            if not (expressible(c) or c == ' '):
                continue
            t = tuple(enc.sent_to_onehot('가' + c + '가')[1])
            rec.state(c)
            rec.step()
            rec.check(t not in seen, 'characters %r and %r share the code %r' % (seen.get(t), c, t))
            seen[t] = c
        rec.trace()
        rec.outcome(len(seen))

    alpha = ['가', '힣', 'ㄱ', 'ㅣ', 'ㄳ', '0', '9', ' ', 'a', '\t'] if not deep else ['가', '힣', '각', 'ㄱ', 'ㅣ', 'ㄳ', '0', '9', ' ', 'a', '\t', 'ᄀ']
    n = 4 if not deep else 5

    def run_text(s, rec):
        check_text(s, rec, matrix=len(s) <= 3)
        rec.trace()
        rec.sample(s)

    border = [-1, 0, 18, 19, 20, 39, 40, 41, 67, 68, 77, 78, 79, 80]

    def run_tuple(case, rec):
        t = tuple(case)
        rec.state(t)
        ok = 0 <= t[0] < 19 and 19 <= t[1] < 40 and 40 <= t[2] < 68
        for before in ([], [(0, 19, 40)]):
            try:
                got = enc.onehot_to_sent(before + [t])
            except ValueError:
                got = ValueError
            rec.step()
            if ok:
                rec.equal(got, ('가' if before else '') + hangul.compose(hangul.CHO[t[0]], hangul.JUNG[t[1] - 19], hangul.JONG[t[2] - 40]), 'decode(%r)' % (t,))
            else:
                rec.check(got is ValueError, 'decode accepts the out-of-range triple %r as %r' % (t, got))
        rec.trace()
        rec.outcome(ok)

    def run_single(i, rec):
        rec.state(i)
        try:
            got = enc.onehot_to_sent([(i,)])
        except ValueError:
            got = ValueError
        if 0 <= i < 80:
            rec.check(got is not ValueError, 'decode rejects index %d' % i)
            if i < 79:
                rec.equal(len(got), 1, 'length of decode(%d)' % i)
            if i == 78 or i == 40:
                rec.equal(got, ' ', 'decode(%d)' % i)
        else:
            rec.check(got is ValueError, 'decode accepts index %d' % i)
        rec.step()
        rec.trace()
        rec.outcome(got is ValueError)

    longs = [u * k for u in ['가나 ', 'ㅋㅋㅎ', '똠방1각하', 'a가 \n'] for k in (10, 100, 700)]
    def run_owned(case, rec):
        a, b = case
        rec.state((a, b))
        rec.own(lambda: enc.sent_to_onehot(a), 'codes of %r' % a, again=lambda: enc.sent_to_onehot(b))
        rec.own(lambda: enc.encode(a), 'matrix of %r' % a, again=lambda: enc.encode(b))
        code = enc.sent_to_onehot(a)
        keep = list(code)
        rec.own(lambda: enc.onehot_to_sent(code), 'decoded %r' % a, again=lambda: enc.onehot_to_sent(enc.sent_to_onehot(b)))
        rec.equal(code, keep, 'codes given to the decoder')
        rec.trace()
        rec.outcome('ok')

    def run_scale(case, rec):
        k, n, chars = case
        base = ''.join(gen.debruijn(list(chars), k))
        s = (base * (n // len(base) + 1))[:n] if n else base
        check_text(s, rec, matrix=len(s) < 5000)
        rec.trace()

    owned = [''.join(t) for k in range(3) for t in itertools.product(['가', 'ㄱ', '7', ' '], repeat=k)]
    return [
        Harness('owned', run_owned, [[a, b] for a in owned for b in owned], chunk=64, about='all histories encode a, encode b, encode a on one encoder, with results kept and spoilt', bound='length <= 2'),
        Harness('code_points', run_block, gen.blocks(0x110000, 0x1000), about='every code point, joined with and without Hangul in between', bound='complete'),
        Harness('hangul', run_hangul, [[lo, min(lo + 256, 0xD7A4)] for lo in range(0xAC00, 0xD7A4, 256)] + [[0x3131, 0x3164]], about='every syllable and lone jamo, alone and in context', bound='complete'),
        Harness('injective', run_distinct, [0], about='codes of all expressible characters are pairwise distinct', bound='complete'),
        Harness('texts', run_text, gen.prefix_roots(alpha, n), expand=gen.expand_prefix(alpha), chunk=4, about='all texts over %d character classes' % len(alpha), bound='length <= %d' % n),
        Harness('triples', run_tuple, [list(t) for t in itertools.product(border, repeat=3)], chunk=256, about='all index triples over range borders', bound='14^3'),
        Harness('scale', run_scale, [[4, 0, '가힣ㄱㅣㄳ09 a\t'], [3, 0, '가각ㄱㄲㅏ1\n\u200b\u3000A.'], [2, 70000, '똠 ㅎ7'], [3, 30000, 'ㄱㄴ가  a'], [2, 66000, ' a']], about='one long text in which every 3- or 4-gram of character classes occurs', bound='70000 characters'),
        Harness('singles', run_single, list(range(-3, 90)) + [1000], chunk=50, about='single indices', bound='-3..89, 1000'),
        Harness('long', run_text, longs, about='long periodic texts', bound='length <= 3500'),
    ]
