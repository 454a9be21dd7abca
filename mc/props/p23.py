"""P23: lemmatizer completeness."""
from mc import conj, gen
from mc.core import Harness
from mc.hangul import decompose

PROP = dict(
    id='P23',
    title='The lemmatizer recovers the stem and ending of regular and irregular surfaces',
    statement=(
        'For every stem and ending (not starting with a syllable whose final is ㅎ), each surface that is their concatenation or comes from one of the following alternations is lemmatized back to them by some cut: ㄷ to ㄹ, loss of ㅅ, 르 to ㄹㄹ after an open syllable, ㅂ to 워/와 in harmony with the ending or dropped before other vowels (endings in 워, 와 or a second syllable 려 excepted), a final ㄴ/ㄹ/ㅁ/ㅂ/ㅆ joining a stem that ends in no final, ㄹ, ㅂ or ㅎ (other than itself), 우+어 to ㅝ (푸 to 퍼), 오+아 to ㅘ, loss of ㅡ before 아/어, 하+아 to 해, loss of ㅎ after ㅏ/ㅓ and its contraction to ㅐ/ㅔ with an ending of the same vowel, and ㅣ+어 to ㅕ. '
        'A lemmatizer holding stem and ending therefore returns the pair.'),
    quantifier=dict(over=['inputs'], text='all stems and endings of complete Hangul syllables, and endings starting with a lone final consonant'),
    why_tests_cant='The existing tests print examples only; a broken inverse rule shows only for stems whose last syllable triggers it.',
    anchors=dict(files=['soynlp/lemmatizer/_lemmatizer.py'],
                 mechanism=[dict(name='lemma_candidate', where='soynlp/lemmatizer/_lemmatizer.py'), dict(name='Lemmatizer.lemmatize', where='soynlp/lemmatizer/_lemmatizer.py')],
                 state=[], observe_at=['lemma_candidate', 'Lemmatizer.lemmatize'], hook_needed=None))

CHECK = dict(
    technique='exhaustive enumeration of stem-final syllables x endings: surfaces generated by an independent conjugation model are replayed through the real lemmatizer',
    level_note='All 11172 stem-final syllables x 56 endings with 2 (thorough 5) prefixes, and all 11172 ending-initial syllables x 34 irregular stems x 2 tails.',
    assumptions=['contracted same-vowel forms, 하여 and 러-irregular forms are outside the statement'])


def harnesses(tier):
    from soynlp.lemmatizer import lemma_candidate, Lemmatizer
    deep = tier == 'thorough'
    prefixes = ['', '그', '푸', '구', '감'] if deep else ['', '그']

    def recover(s, e, rec, full=False):
        for rule, surface in conj.rules(s, e):
            if not conj.invertible(rule, s, e, surface):
                continue
            rec.outcome(rule)
            rec.step()
            if full:
                got = Lemmatizer({s}, {e}).lemmatize(surface)
                rec.check((s, e) in got, 'a lemmatizer with stem %r and ending %r returns %r for %r (%s)' % (s, e, sorted(got), surface, rule))
                continue
            # the cut is close to the stem boundary; look there first, then everywhere
            cuts = sorted(range(1, len(surface) + 1), key=lambda i: abs(i - len(s)))
            rec.check(any((s, e) in lemma_candidate(surface[:i], surface[i:]) for i in cuts),
                      'no cut of %r is lemmatized to %r + %r (%s)' % (surface, s, e, rule))

    def run(case, rec):
        lo, hi = case
        for o in range(lo, hi):
            for p in prefixes:
                for e in conj.ENDINGS:
                    recover(p + chr(o), e, rec, full=not p and e[0] in 'ㄴ아어다')
                    rec.state((p, o, e))
        rec.trace()
        rec.sample([lo, hi])

    def run_endings(case, rec):
        lo, hi = case
        for o in range(lo, hi):
            for s in conj.SPECIAL:
                for tail in ('', '려', '다'):
                    recover('돌' + s, chr(o) + tail, rec)
                    recover('시' + s, chr(o) + tail, rec)
            rec.state(o)
        rec.trace()
        rec.sample([lo, hi])

    vowel = [0xAC00 + 11 * 588 + k for k in range(588)]

    def run_vowel(case, rec):
        # every stem-final syllable before every vowel-initial ending syllable
        lo, hi = case
        for o in range(lo, hi):
            for k in vowel:
                recover(chr(o), chr(k) + '다', rec)
            rec.state(o)
        rec.trace()
        rec.sample([lo, hi])

    def run_far(case, rec):
        last = case
        for i, p in enumerate(conj.FAR_PREFIX):
            for j, head in enumerate(conj.FAR_HEAD):
                for k, tail in enumerate(conj.FAR_TAIL):
                    if not all(0xAC00 <= ord(x) <= 0xD7A3 for x in tail):
                        continue
                    if not deep and gen.mix((i * 97 + j) * 89 + k) % 2:
                        continue
                    recover(p + last, head + tail, rec, full=True)
                    rec.state((p, last, head, tail))
        rec.trace()

    def run_triggers(case, rec):
        # syllables that decide exceptions, at some distance from the stem's end
        for p in ('', '나', '막', '가나'):
            for s in conj.SPECIAL:
                for e in conj.ENDINGS:
                    recover(case + p + s, e, rec)
                    recover('다' + case + p + s, e, rec)
            rec.state((case, p))
        rec.trace()

    hs = [
        Harness('triggers', run_triggers, list('그푸구이르좋놓벗답꼽깝롭하돕오우러렇랗으퍼'), about='syllables that decide exceptions up to three syllables before the end of the stem', bound='21 syllables x 8 contexts x %d stems x 56 endings' % len(conj.SPECIAL)),
        Harness('far', run_far, list(conj.SPECIAL), about='irregular stems behind long prefixes x long endings, through a lemmatizer holding just that stem and ending', bound='%d stems x %d prefixes x %d heads x %d tails%s' % (len(conj.SPECIAL), len(conj.FAR_PREFIX), len(conj.FAR_HEAD), len(conj.FAR_TAIL), '' if deep else ', every second combination')),
        Harness('stems', run, gen.blocks2(0xAC00, 0xD7A4, 40), about='every stem-final syllable x 56 endings', bound='%d prefixes' % len(prefixes)),
        Harness('endings', run_endings, gen.blocks2(0xAC00, 0xD7A4, 40), about='every ending-initial syllable x irregular stems', bound='34 stems x 2 prefixes x 3 tails'),
    ]
    if deep:
        hs.append(Harness('stems-x-vowels', run_vowel, gen.blocks2(0xAC00, 0xD7A4, 10), about='every stem-final syllable x every vowel-initial ending syllable', bound='11172 x 588'))
    return hs
