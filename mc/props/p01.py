"""P01: jamo composition / decomposition and character classes, over all of Unicode."""
import itertools

from mc import gen, hangul
from mc.core import Harness

PROP = dict(
    id='P01',
    title='Jamo composition and decomposition are exact inverses over all of Unicode',
    statement=(
        'For every one of the 11,172 complete Hangul syllables, decomposing gives the initial, vowel and final consonant '
        '(a space when there is no final) that Unicode assigns to it, and composing those three gives the syllable back; composing any of the '
        '19x21x28 jamo triples gives the syllable that decomposes into that triple. '
        'A lone compatibility consonant or vowel decomposes into itself padded with spaces in the other two positions, and every other character has no decomposition. '
        'The predicates Hangul, complete Hangul, consonant, vowel, digit (0-9) and English letter (a-z, A-Z) accept exactly the characters of their class, for every Unicode code point.'),
    quantifier=dict(over=['inputs'], text='every Unicode code point, every jamo triple'),
    why_tests_cant='The hangle test only prints a handful of syllables and asserts nothing about boundaries, compatibility jamo or non-Hangul characters.',
    anchors=dict(
        files=['soynlp/hangle/_hangle.py'],
        mechanism=[dict(name='compose', where='soynlp/hangle/_hangle.py'), dict(name='decompose', where='soynlp/hangle/_hangle.py'),
                   dict(name='character_is_*', where='soynlp/hangle/_hangle.py'), dict(name='jamo tables', where='soynlp/hangle/_hangle.py')],
        observe_at=['soynlp.hangle.compose', 'soynlp.hangle.decompose', 'soynlp.hangle.character_is_*'],
        hook_needed=None))

CHECK = dict(
    technique='exhaustive enumeration of the complete finite input space (all code points, all jamo triples) against a Unicode-database model',
    level_note='The input space is finite and enumerated completely: 1,114,112 code points and 11,172 jamo triples; the oracle is unicodedata NFD/NFC, independent of soynlp.',
    assumptions=['unicodedata canonical decomposition is correct'])


def harnesses(tier):
    from soynlp import hangle as H

    def run_block(case, rec):
        lo, hi = case
        for i in range(lo, hi):
            c = chr(i)
            rec.state(i)
            want = hangul.decompose(c)
            got = H.decompose(c)
            rec.equal(None if got is None else tuple(got), want, 'decompose(U+%04X)' % i)
            syl, ja, mo = '가' <= c <= '힣', 0x3131 <= i <= 0x314E, 0x314F <= i <= 0x3163
            rec.equal(bool(H.character_is_korean(c)), syl or ja or mo, 'is Hangul(U+%04X)' % i)
            rec.equal(bool(H.character_is_complete_korean(c)), syl, 'is complete Hangul(U+%04X)' % i)
            rec.equal(bool(H.character_is_jaum(c)), ja, 'is consonant(U+%04X)' % i)
            rec.equal(bool(H.character_is_moum(c)), mo, 'is vowel(U+%04X)' % i)
            rec.equal(bool(H.character_is_number(c)), c in '0123456789', 'is digit(U+%04X)' % i)
            rec.equal(bool(H.character_is_english(c)), ('a' <= c <= 'z') or ('A' <= c <= 'Z'), 'is English(U+%04X)' % i)
            if syl:
                rec.equal(H.compose(*got), c, 'compose(decompose(%s))' % c)
                rec.outcome('syllable')
            else:
                rec.outcome('jamo' if ja or mo else 'other')
        rec.trace()
        rec.sample('U+%04X..U+%04X' % (lo, hi - 1))

    def run_triples(case, rec):
        cho = case
        for jung, jong in itertools.product(hangul.JUNG, hangul.JONG):
            s = H.compose(cho, jung, jong)
            rec.state((cho, jung, jong))
            rec.equal(s, hangul.compose(cho, jung, jong), 'compose(%r,%r,%r)' % (cho, jung, jong))
            rec.equal(tuple(H.decompose(s)), (cho, jung, jong), 'decompose(compose(%r,%r,%r))' % (cho, jung, jong))
        rec.trace()
        rec.outcome(cho)
        rec.sample(cho + '??')

    def run_repeat(case, rec):
        # the functions are stateless: interleaved repeated calls agree with first calls
        probe = ['가', '힣', 'ㄱ', 'ㅣ', 'a', '각', '강', '갛']
        first = [(H.decompose(c), H.character_is_korean(c)) for c in probe]
        a, b, c = case
        for i in (a, b, c, a, b, c):
            rec.equal((H.decompose(probe[i]), H.character_is_korean(probe[i])), first[i], 'repeated decompose(%s)' % probe[i])
        rec.state(tuple(case))
        rec.trace()
        rec.outcome('ok')

    return [
        Harness('code_points', run_block, gen.blocks(0x110000, 0x2000), about='every Unicode code point through decompose, compose and the predicates', bound='complete'),
        Harness('jamo_triples', run_triples, list(hangul.CHO), about='every initial x vowel x final triple', bound='complete'),
        Harness('call_order', run_repeat, [list(t) for t in itertools.product(range(8), repeat=3)], chunk=64, about='all call sequences of length 3 over 8 probe characters, twice', bound='depth 6'),
    ]
