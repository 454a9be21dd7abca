"""P22: lemmatizer soundness."""
import contextlib
import io
import itertools

from mc import conj, gen
from mc.core import Harness

PROP = dict(
    id='P22',
    title='The lemmatizer only proposes stem and ending pairs that conjugate to the word',
    statement=(
        'Every (stem, ending) proposed for a word of Hangul syllables conjugates, by the rules of the conjugator, to a set of surfaces containing the whole word, and has a nonempty ending; this holds for every way of cutting the word. '
        'The lemmatizer returns exactly those proposals, over all cuts, whose stem and ending are both in its dictionaries (or whose stem is, when only the stem is checked), its unfiltered list of candidates is their union over all cuts, debug messages change nothing, and neither queries nor later changes elsewhere alter its answers or the given dictionaries.'),
    quantifier=dict(over=['inputs', 'configurations', 'histories'], text='all words of complete Hangul syllables, cuts and dictionaries'),
    why_tests_cant='The existing tests print a list of examples and assert nothing; irregular alternations interact syllable by syllable.',
    anchors=dict(files=['soynlp/lemmatizer/_lemmatizer.py', 'soynlp/lemmatizer/_conjugation.py'],
                 mechanism=[dict(name='lemma_candidate', where='soynlp/lemmatizer/_lemmatizer.py'), dict(name='Lemmatizer.lemmatize / candidates', where='soynlp/lemmatizer/_lemmatizer.py')],
                 state=[], observe_at=['lemma_candidate', 'Lemmatizer.lemmatize', 'Lemmatizer.candidates'], hook_needed=None))

CHECK = dict(
    technique='exhaustive enumeration of words and cuts on the real lemmatizer; every proposal is replayed through an independent conjugation model (a table of alternations) and through the real conjugator',
    level_note='Cut words with every one of the 11172 syllables before the cut and 60 continuations after it (thorough: 3 prefixes), all words up to length 3 (4) over 22 irregular syllables with every dictionary derived from their candidates. The chat variant is only covered as far as its results are sound.',
    assumptions=['words consist of complete Hangul syllables', 'predefined words are given as {(left, right): ((stem, ending), ...)}'])

RIGHTS = ['', '다', '고', '니다', '면', '어', '아', '었다', '았다', '어라', '아라', '워', '와', '워서', '와서', '러', '라', '렀다', '랐다', '여', '였다', '네', '는', '은', '을', '으면', '까', '려고', '우려고', '요', '이', '오', '운', '울까', '서', '지', '자', '습니다', '거든', '거라', '니까', '던', '않', '안']


def harnesses(tier):
    from soynlp.lemmatizer import lemma_candidate, lemma_candidate_chat, conjugate, Lemmatizer
    deep = tier == 'thorough'
    prefixes = ['', '그', '감', '푸르'] if deep else ['', '그']

    def sound(pairs, word, what, rec):
        for s, e in pairs:
            rec.check(bool(s) and bool(e), '%s proposes %r' % (what, (s, e)))
            rec.check(word in conj.conjugate(s, e), '%s proposes %r, which conjugates to %r' % (what, (s, e), sorted(conj.conjugate(s, e))))
            rec.check(word in conjugate(s, e), '%s proposes %r, which the library conjugates to %r' % (what, (s, e), sorted(conjugate(s, e))))
        rec.step(len(pairs))

    def run(case, rec):
        lo, hi = case
        for o in range(lo, hi):
            for p in prefixes:
                for r in RIGHTS:
                    l = p + chr(o)
                    got = lemma_candidate(l, r)
                    sound(got, l + r, 'lemma_candidate(%r, %r)' % (l, r), rec)
                    if r:
                        ok = l + r in conj.conjugate(l, r) and conj.decompose(r[0])[2] != 'ㅎ'
                        rec.equal((l, r) in got, ok, 'plain cut %r proposed' % ((l, r),))
                    rec.state((l, r))
            got = lemma_candidate_chat('가' + chr(o), '다')
            sound(got, '가' + chr(o) + '다', 'lemma_candidate_chat(%r)' % ('가' + chr(o) + '다',), rec)
        rec.trace()
        rec.outcome('ok')
        rec.sample([lo, hi])

    sylls = '가갔르러라하해했여였구굴우워오와파랗래으이지져푸퍼다어아'
    n = 4 if deep else 3
    small = sylls if deep else sylls[:26]

    def run_words(case, rec):
        word = case
        parts = [lemma_candidate(word[:i], word[i:]) for i in range(1, len(word) + 1)]
        everything = set().union(*parts)
        stems, endings = sorted({s for s, _ in everything}), sorted({e for _, e in everything})
        menus = [(stems, endings), (stems[::2], endings), (stems, endings[1::2]), (stems[1::3] + ['없는'], endings[::2] + ['ㅋ']), ([], endings), (stems, [])]
        for st, en in menus:
            for box in (set, dict.fromkeys):
                given = (box(st), box(en))
                lem = Lemmatizer(*given)
                for again in range(2):
                    what = 'lemmatizer(stems %r, endings %r) on %r' % (st, en, word)
                    got = lem.lemmatize(word)
                    rec.equal(set(got), {(s, e) for s, e in everything if s in st and e in en}, what)
                    rec.equal(set(lem.lemmatize(word, check_only_stem=True)), {(s, e) for s, e in everything if s in st}, what + ', stems only')
                    rec.equal(set(lem.candidates(word)), everything, what + ': candidates')
                    got.clear() if isinstance(got, set) else None
                rec.check(given == (box(st), box(en)), what + ': the dictionaries were changed')
        sound(everything, word, 'candidates of %r' % word, rec)
        rec.state(word)
        rec.trace()
        rec.outcome(min(len(everything), 10))
        rec.sample(word)

    def run_predefined(case, rec):
        # words predefined by the user are further proposals, kept only if they conjugate to the word
        word = case
        parts = [lemma_candidate(word[:i], word[i:]) for i in range(1, len(word) + 1)]
        everything = set().union(*parts)
        menu = sorted(everything) + [(word, ''), (word[:1], '다'), (word, '어'), ('하', '아'), ('가', word[-1:])]
        for i in range(1, len(word) + 1):
            for pairs in [menu] + [[x] for x in menu] + [[]]:
                table = {(word[:i], word[i:]): tuple(pairs), ('x', word): tuple(menu)}
                keep = dict(table)
                stems, endings = {s for s, _ in menu}, {e for _, e in menu}
                lem = Lemmatizer(stems, endings, predefined=table)
                plain = Lemmatizer(stems, endings)
                what = 'lemmatizer with predefined %r on %r' % (table, word)
                for again in range(2):
                    got = set(lem.candidates(word))
                    sound(got, word, what, rec)
                    rec.check(got >= everything, what + ': proposals are lost')
                    more = {(s, e) for s, e in pairs if e and word in conj.conjugate(s, e) and conj.decompose(e[0])[2] != 'ㅎ'}
                    rec.equal(got, everything | more, what)
                    rec.equal(set(lem.lemmatize(word)), got, what + ': lemmatize')
                    rec.equal(set(plain.candidates(word)), everything, 'another lemmatizer on %r' % word)
                rec.equal(table, keep, 'predefined words after use')
                rec.state((word, i, tuple(pairs)))
        rec.trace()
        rec.outcome(min(len(everything), 10))

    def run_far(case, rec):
        # long words: a conjugated stem behind a long prefix and before a long tail, cut everywhere
        last, k = case
        prefixes = conj.FAR_PREFIX if deep else conj.FAR_PREFIX[k::4]
        tails = conj.FAR_TAIL if deep else conj.FAR_TAIL[k::3]
        for p in prefixes:
            for head in conj.FAR_HEAD[k::2]:
                for tail in tails:
                    if not all(0xAC00 <= ord(x) <= 0xD7A3 for x in tail):
                        continue
                    s, e = p + last, head + tail
                    for word in sorted(conj.conjugate(s, e)):
                        parts = [lemma_candidate(word[:i], word[i:]) for i in range(1, len(word) + 1)]
                        everything = set().union(*parts)
                        sound(everything, word, 'candidates of %r' % word, rec)
                        lem = Lemmatizer({s, word}, {e, head})
                        rec.equal(set(lem.candidates(word)), everything, 'lemmatizer on %r: candidates' % word)
                        rec.equal(set(lem.lemmatize(word)), {x for x in everything if x[0] in (s, word) and x[1] in (e, head)}, 'lemmatizer(%r, %r) on %r' % (s, e, word))
                        rec.equal(set(lem.lemmatize(word, check_only_stem=True)), {x for x in everything if x[0] in (s, word)}, 'lemmatizer(%r, %r) on %r, stems only' % (s, e, word))
                        rec.state(word)
        rec.own(lambda: lemma_candidate(last, '어'), 'lemma_candidate(%r, 어)' % last)
        rec.own(lambda: lemma_candidate_chat('가' + last, ''), 'lemma_candidate_chat(가%s)' % last)
        lem = Lemmatizer({last, '하', '크'}, {'어', 'ㄴ다'})
        rec.own(lambda: lem.lemmatize(last + '어'), 'lemmatize(%r)' % (last + '어'))
        rec.own(lambda: lem.candidates(last + '어'), 'candidates(%r)' % (last + '어'))
        rec.trace()
        rec.outcome('far')

    def run_debug(case, rec):
        # with messages on, with predefined words or without, the same proposals
        for word in case:
            for i in range(1, len(word) + 1):
                l, r = word[:i], word[i:]
                for pre in (None, {(l, r): ((word, '다'), (l, r or '다'), (word[:1], '고'), ('없', '음'))}, {('없', '음'): (('없', '음'),)}):
                    for f in (lemma_candidate, lemma_candidate_chat):
                        want = f(l, r, pre)
                        with contextlib.redirect_stdout(io.StringIO()):
                            rec.equal(set(f(l, r, pre, debug=True)), set(want), '%s(%r, %r, predefined=%r) with debug messages, against without' % (f.__name__, l, r, pre))
                        rec.step()
            rec.state(word)
        rec.trace()
        rec.outcome('debug')

    def run_scale(case, rec):
        # words of up to 150 syllables, dictionaries of thousands of stems and endings
        last, length, size = case
        fill = '가나다라마바사아자차카타파하거너더러머버서어저처커터퍼허'
        stems = {a + b + last for a in fill for b in fill} | {a + b + c for a in fill for b in fill for c in fill[:size]}
        endings = {a + b for a in fill for b in fill[:size]} | {a + b + c for a in fill for b in fill for c in fill[:size]} | {'어', '었다', 'ㄴ다'}
        pre = (fill * 6)[:length]
        for head in ('어', '네', 'ㄴ', '었', '으'):
            for tail in ('', '다', (fill[::-1] * 6)[:length]):
                s, e = pre + last, head + tail
                st, en = stems | {s}, endings | {e}
                lem = Lemmatizer(st, en)
                for word in sorted(conj.conjugate(s, e)) + [fill[3] + fill[7] + last + '었다', fill[3] + fill[7] + last]:
                    cuts = range(1, len(word) + 1) if len(word) < 60 else sorted({1, 2, len(word) // 2, len(word) - 1, len(word)} | set(range(max(1, length - 2), length + 4)))
                    everything = set()
                    for i in cuts:
                        got = lemma_candidate(word[:i], word[i:])
                        sound(got, word, 'lemma_candidate of %r cut at %d' % (word, i), rec)
                        everything |= got
                    got = lem.candidates(word)
                    if len(word) < 60:
                        rec.equal(set(got), everything, 'candidates of %r' % word)
                        rec.equal(set(lem.lemmatize(word)), {x for x in everything if x[0] in st and x[1] in en}, 'lemmatizer with %d stems and %d endings on %r' % (len(st), len(en), word))
                    else:
                        rec.check(set(got) >= everything, 'candidates of %r lack %r', word, everything - set(got))
                        rec.check(set(lem.lemmatize(word)) >= {x for x in everything if x[0] in st and x[1] in en}, 'lemmatizer on %r', word)
                    rec.state(word)
        rec.trace()
        rec.outcome('scale')

    def expand(root):
        for t in itertools.product(small, repeat=n - 1):
            yield root + ''.join(t)

    return [
        Harness('debug', run_debug, [[a] + [a + b for b in list(sylls) + ['먹', '닭', '앉', '깎'] + [c + d for c in sylls[::4] for d in sylls[1::5]]] for a in sylls + '먹닭앉깎많밭꽃빛앞'], about='all words of two and some of three irregular syllables, every cut, predefined or not, with debug messages', bound='%d words' % ((len(sylls) + 9) * (len(sylls) + 41))),
        Harness('scale', run_scale, [[c, k, z] for c in (conj.SPECIAL if deep else conj.SPECIAL[::3]) for k in (20, 40, 120) for z in (5, 14)], about='words of up to 250 syllables, dictionaries of up to 12,000 stems and endings', bound='%d stems x 3 lengths' % len(conj.SPECIAL if deep else conj.SPECIAL[::3])),
        Harness('far', run_far, [[c, k] for c in conj.SPECIAL for k in (0, 1)], about='conjugations of irregular stems behind long prefixes with long endings, every cut', bound='words of up to 24 syllables'),
        Harness('cuts', run, gen.blocks2(0xAC00, 0xD7A4, 40), about='every syllable before the cut x continuations', bound='%d prefixes x %d continuations' % (len(prefixes), len(RIGHTS))),
        Harness('predefined', run_predefined, list(gen.words_upto('가갔러해여웠아다', 3, lo=1))[::1 if deep else 4], chunk=8, about='words predefined by the user at every cut, sound and unsound ones', bound='length <= 3 over 8 syllables%s' % ('' if deep else ', every fourth')),
        Harness('words', run_words, list(gen.words_upto(small, n - 1, lo=1)), chunk=16, about='all short words x dictionaries', bound='length <= %d' % (n - 1)),
        Harness('words-long', run_words, list(small), expand=expand, about='all words of full length x dictionaries', bound='length %d' % n),
    ]
