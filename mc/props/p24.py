"""P24: conjugation."""
import contextlib
import io

from mc import conj, gen
from mc.core import Harness
from mc.hangul import decompose, is_syllable, compose

PROP = dict(
    id='P24',
    title='Conjugation produces exactly the surfaces of the regular and irregular rules',
    statement=(
        'conjugate(stem, ending) is the set of surfaces given by the documented rules for the last syllable of the stem (with the one before it for 르) and the first syllable of the ending: plain concatenation; ㄷ, 르, ㅂ, ㅅ, 우, 오, ㅡ, 러, 여 and ㅎ alternations (with the exceptions 벗, 푸르, 구르, 좋, 놓, and -답/-꼽/-깝/-롭 taking 워), a lone ㄴ/ㄹ/ㅁ/ㅂ/ㅆ joining the stem as its final, imperatives in 아라/어라, ㅣ+어 to ㅕ and merging of equal vowels, nothing else. '
        'Syllables further away are never changed and never matter. With vowel harmony enforced, the ending\'s 아/야/오/요 or 어/여/우/유 first vowel adapts to a bright, dark or neutral stem vowel (ㅂ-final stems only in the neutral case) and consonant-initial endings are untouched. '
        'The chat variant adds only surfaces in which a lone consonant joins the stem. The list of stem surfaces contains the stem and exactly the documented altered stems. Debug messages change nothing.'),
    quantifier=dict(over=['inputs', 'configurations'], text='all stems and endings of complete Hangul syllables, and endings starting with a lone consonant other than ㅇ'),
    why_tests_cant='The existing tests print examples only; each rule applies to a slice of 11172 syllables on either side of the boundary.',
    anchors=dict(files=['soynlp/lemmatizer/_conjugation.py'],
                 mechanism=[dict(name='conjugate', where='soynlp/lemmatizer/_conjugation.py'), dict(name='conjugate_chat', where='soynlp/lemmatizer/_conjugation.py'), dict(name='_conjugate_stem', where='soynlp/lemmatizer/_conjugation.py')],
                 state=[], observe_at=['conjugate', 'conjugate_chat', '_conjugate_stem'], hook_needed=None))

CHECK = dict(
    technique='exhaustive enumeration of both sides of the stem-ending boundary on the real conjugator against an independent table of alternations',
    level_note='All 11172 stem-final syllables x 56 endings x 2 (thorough 5) prefixes, all 11172 ending-initial syllables x 34 irregular stems, both harmony settings; thorough adds all stem-final syllables x all 588 vowel-initial ending syllables.',
    assumptions=['the ending is nonempty (the chat variant also accepts an empty one)'])


def harnesses(tier):
    import soynlp.lemmatizer as lemmatizer
    from soynlp.lemmatizer import conjugate, conjugate_chat
    # the underscore name is exported; should it get another one, that part alone is left out
    stem_surfaces = getattr(lemmatizer, '_conjugate_stem', conj.stem_surfaces)
    deep = tier == 'thorough'
    prefixes = ['', '감', '푸', '구', '르'] if deep else ['', '감']

    def compare(s, e, rec, harmony=True):
        got = conjugate(s, e)
        want = conj.conjugate(s, e)
        rec.equal(set(got), want, 'conjugate(%r, %r)' % (s, e))
        if harmony:
            rec.equal(set(conjugate(s, e, enforce_moum_harmoney=True)), conj.conjugate(s, conj.harmonize(s, e)), 'conjugate(%r, %r) with vowel harmony' % (s, e))
        return got

    def run(case, rec):
        lo, hi = case
        for o in range(lo, hi):
            for p in prefixes:
                s = p + chr(o)
                rec.equal(set(stem_surfaces(s)), conj.stem_surfaces(s), 'stem surfaces of %r' % s)
                rec.state(s)
                for e in conj.ENDINGS + ['ㄱ', 'ㅋ', 'ㅎ']:
                    compare(s, e, rec, harmony=not p)
                    if p == '감':
                        extra = {p + compose(*decompose(chr(o))[:2], e[0]) + e[1:]} if not is_syllable(e[0]) else set()
                        rec.equal(set(conjugate_chat(s, e)), conj.conjugate(s, e) | extra, 'conjugate_chat(%r, %r)' % (s, e))
                if p == '감':
                    rec.equal(set(conjugate_chat(s, '')), {s}, 'conjugate_chat(%r, empty)' % s)
        rec.trace()
        rec.outcome('ok')
        rec.sample([lo, hi])

    def run_debug(case, rec):
        # with messages on the same surfaces
        for o in case:
            for p in ('', '푸'):
                s = p + chr(o)
                with contextlib.redirect_stdout(io.StringIO()):
                    rec.equal(set(stem_surfaces(s, True)) if stem_surfaces is not conj.stem_surfaces else conj.stem_surfaces(s), conj.stem_surfaces(s), 'stem surfaces of %r with debug messages' % s)
                    for e in conj.ENDINGS[::2] + ['ㄱ', 'ㅋㅋ', 'ㅎ']:
                        for h in (False, True):
                            rec.equal(set(conjugate(s, e, h, True)), set(conjugate(s, e, h)), 'conjugate(%r, %r, %r) with debug messages' % (s, e, h))
                            rec.equal(set(conjugate_chat(s, e, h, True)), set(conjugate_chat(s, e, h)), 'conjugate_chat(%r, %r, %r) with debug messages' % (s, e, h))
                        rec.step()
                rec.state(s)
        rec.trace()
        rec.outcome('debug')

    def run_long(case, rec):
        # stems and endings of up to 300 syllables
        last, k = case
        fill = ('가나다라마바사아자차카타파하거너더러머버서어저처커터퍼허' * 12)[:k]
        for head in conj.FAR_HEAD + ['ㅋ', 'ㅎ']:
            for s, e in ((fill + last, head), (last, head + fill), (fill + last, head + fill[::-1])):
                compare(s, e, rec)
                rec.state((s, e))
        rec.equal(set(stem_surfaces(fill + last)), conj.stem_surfaces(fill + last), 'stem surfaces of %r' % (fill + last))
        rec.trace()
        rec.outcome('long')

    def run_endings(case, rec):
        lo, hi = case
        for o in range(lo, hi):
            for s in conj.SPECIAL:
                for stem in (s, '구' + s, '돌푸' + s):
                    for tail in ('', '라', '다가'):
                        compare(stem, chr(o) + tail, rec, harmony=stem == s)
            rec.state(o)
        rec.trace()
        rec.outcome('ok')
        rec.sample([lo, hi])

    def run_vowel(case, rec):
        lo, hi = case
        for o in range(lo, hi):
            for k in range(588):
                compare(chr(o), chr(0xAC00 + 11 * 588 + k), rec)
            rec.state(o)
        rec.trace()
        rec.outcome('ok')
        rec.sample([lo, hi])

    def run_far(case, rec):
        last = case
        for p in conj.FAR_PREFIX:
            for head in conj.FAR_HEAD + ['ㅋ', 'ㄱ', 'ㅎ', 'ㄷ']:
                for tail in conj.FAR_TAIL:
                    s, e = p + last, head + tail
                    compare(s, e, rec)
                    extra = {p + compose(*decompose(last)[:2], head) + tail} if not is_syllable(head) else set()
                    rec.equal(set(conjugate_chat(s, e)), conj.conjugate(s, e) | extra, 'conjugate_chat(%r, %r)' % (s, e))
                    rec.state((s, e))
            rec.equal(set(stem_surfaces(p + last)), conj.stem_surfaces(p + last), 'stem surfaces of %r' % (p + last))
            for f in (lambda: conjugate(p + last, '어다'), lambda: conjugate(p + last, 'ㄴ다'), lambda: conjugate_chat(p + last, 'ㄴㄴ'), lambda: conjugate_chat(p + last, ''), lambda: stem_surfaces(p + last)):
                rec.own(f, 'conjugation of %r' % (p + last))
        rec.trace()
        rec.outcome('ok')

    hs = [
        Harness('debug', run_debug, [list(range(a, 0xD7A4, 250))[::1 if deep else 4] for a in range(0xAC00, 0xAC00 + 250)], about='with debug messages the same surfaces', bound='%s stem-final syllables x 31 endings x 2 prefixes' % ('all 11172' if deep else 'every fourth of 11172')),
        Harness('long', run_long, [[c, k] for c in conj.SPECIAL for k in (20, 64, 128, 300)], about='irregular stems and endings of up to 300 syllables', bound='%d stems x 4 lengths x 19 endings' % len(conj.SPECIAL)),
        Harness('far', run_far, list(conj.SPECIAL), about='irregular stems behind long prefixes x long endings', bound='%d stems x %d prefixes x %d heads x %d tails' % (len(conj.SPECIAL), len(conj.FAR_PREFIX), len(conj.FAR_HEAD) + 4, len(conj.FAR_TAIL))),
        Harness('stems', run, gen.blocks2(0xAC00, 0xD7A4, 40), about='every stem-final syllable x 60 endings', bound='%d prefixes' % len(prefixes)),
        Harness('endings', run_endings, gen.blocks2(0xAC00, 0xD7A4, 40), about='every ending-initial syllable x irregular stems', bound='34 stems x 3 prefixes x 3 tails'),
    ]
    if deep:
        hs.append(Harness('stems-x-vowels', run_vowel, gen.blocks2(0xAC00, 0xD7A4, 10), about='every stem-final syllable x every vowel-initial ending syllable', bound='11172 x 588'))
    return hs
