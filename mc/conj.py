"""Reference model of Korean conjugation as a table of alternations over jamo triples.

Written from the rules stated in soynlp's documentation and comments; shares no
code with soynlp.  A stem is P + (c, v, f); an ending is (ec, ev, ef) + Q or a
lone final consonant k + Q."""
from mc.hangul import compose, decompose, is_syllable

POSITIVE, NEGATIVE, NEUTER = 'ㅏㅑㅗㅛ', 'ㅓㅕㅜㅠ', 'ㅡㅣ'
TO_NEGATIVE = dict(zip('ㅏㅑㅗㅛ', 'ㅓㅕㅜㅠ'))
TO_POSITIVE = dict(zip('ㅓㅕㅜㅠ', 'ㅏㅑㅗㅛ'))
FINALS = 'ㄴㄹㅁㅂㅆ'


def harmonize(stem, ending):
    c, v, f = decompose(stem[-1])
    if not is_syllable(ending[0]):
        return ending
    ec, ev, ef = decompose(ending[0])
    if ec == 'ㅇ':
        if f != 'ㅂ' and v in POSITIVE and ev in NEGATIVE:
            ev = TO_POSITIVE[ev]
        elif f != 'ㅂ' and v in NEGATIVE and ev in POSITIVE:
            ev = TO_NEGATIVE[ev]
        elif v in NEUTER and ev in POSITIVE:
            ev = TO_NEGATIVE[ev]
    return compose(ec, ev, ef) + ending[1:]


def rules(stem, ending):
    """List of (rule, surface)."""
    P, S, E, Q = stem[:-1], stem, ending, ending[1:]
    last = stem[-1]
    c, v, f = decompose(last)
    out = []

    def put(rule, surface):
        out.append((rule, surface))

    if not is_syllable(ending[0]):
        if ending[0] in FINALS:
            put('final consonant joins the stem', P + compose(c, v, ending[0]) + Q)
        return out
    ec, ev, ef = decompose(ending[0])
    vowel = ec == 'ㅇ'
    a_eo = vowel and ev in 'ㅏㅓ'
    opened = f == ' '

    if ending[0] == '다':
        put('다', S + E)
    if f == 'ㄷ' and vowel:
        put('ㄷ to ㄹ', P + compose(c, v, 'ㄹ') + E)
        put('ㄷ kept', S + E)
    if last == '르' and P and not stem.endswith('푸르') and a_eo:
        pc, pv, _ = decompose(P[-1])
        put('르 to ㄹㄹ', P[:-1] + compose(pc, pv, 'ㄹ') + compose('ㄹ', ev, ef) + Q)
    if f == 'ㅂ':
        if a_eo:
            glide = 'ㅝ' if (P and last in '답꼽깝롭') or ev == 'ㅓ' else 'ㅘ'
            put('ㅂ to glide', P + compose(c, v, ' ') + compose('ㅇ', glide, ef) + Q)
        elif vowel:
            put('ㅂ dropped', P + compose(c, v, ' ') + E)
    if f == 'ㅅ' and vowel:
        put('ㅅ dropped', S + E if last == '벗' else P + compose(c, v, ' ') + E)
    if v == 'ㅜ' and opened and vowel and ev == 'ㅓ':
        put('우 + 어', P + compose(c, 'ㅓ' if last == '푸' else 'ㅝ', ef) + Q)
    if v == 'ㅗ' and opened and vowel and ev == 'ㅏ':
        put('오 + 아', P + compose(c, 'ㅘ', ef) + Q)
    if v == 'ㅡ' and opened and vowel:
        if c == 'ㅇ' and P:
            put('으 dropped', P + E)
        elif c != 'ㄹ':
            put('ㅡ dropped', P + compose(c, ev, ef) + Q)
    if E[:2] in ('어라', '아라'):
        if last == '오':
            put('imperative', P + '와' + Q)
        elif last == '우':
            put('imperative', P + '워' + Q)
        elif last == '가':
            put('imperative', S + Q)
        else:
            put('imperative', S + ('아' if v in POSITIVE else '어') + Q)
    if last == '르' and not stem.endswith('구르') and vowel and ev == 'ㅓ':
        put('르 + 러', S + compose('ㄹ', 'ㅓ', ef) + Q)
    if last == '하' and a_eo:
        put('하 + 여', S + compose('ㅇ', 'ㅕ', ef) + Q)
        put('하 to 해', P + compose('ㅎ', 'ㅐ', ef) + Q)
    if f == 'ㅎ':
        put('ㅎ dropped', S + E if last in '좋놓' else P + compose(c, v, ' ') + E)
        if a_eo and last != '좋':
            put('ㅎ contracted', P + compose(c, 'ㅐ' if ev == 'ㅏ' else 'ㅔ', ef) + Q)
        if ec == 'ㄴ':
            put('ㅎ kept', S + E)
    if v == 'ㅣ' and opened and vowel and ev == 'ㅓ':
        put('ㅣ + 어', P + compose(c, 'ㅕ', ef) + Q)
        put('ㅣ kept', S + E)
    if not out:
        if opened and vowel and ev == v:
            put('same vowel merged', P + compose(c, v, ef) + Q)
        else:
            put('plain', S + E)
    return out


def conjugate(stem, ending):
    return {s for _, s in rules(stem, ending)}


def stem_surfaces(stem):
    """Stem parts of the surfaces, as _conjugate_stem documents them."""
    P = stem[:-1]
    last = stem[-1]
    c, v, f = decompose(last)
    out = {stem}

    def put(*triples):
        for t in triples:
            out.add(P + compose(*t))
    if f == 'ㄷ':
        put((c, v, 'ㄹ'))
    if last == '르' and P:
        pc, pv, _ = decompose(P[-1])
        out.add(P[:-1] + compose(pc, pv, 'ㄹ'))
    if f == 'ㅂ' or (f == 'ㅅ' and last != '벗'):
        put((c, v, ' '))
    if f == ' ':
        put(*((c, v, k) for k in 'ㄴㄹㅂㅆ'))
        if last == '푸':
            put(('ㅍ', 'ㅓ', ' '), ('ㅍ', 'ㅓ', 'ㅆ'))
        elif v == 'ㅜ':
            put((c, 'ㅝ', ' '), (c, 'ㅝ', 'ㅆ'))
        if v == 'ㅗ':
            put((c, 'ㅘ', ' '), (c, 'ㅘ', 'ㅆ'))
        if v == 'ㅡ':
            put((c, 'ㅓ', ' '), (c, 'ㅓ', 'ㅆ'))
            if c == 'ㅇ' and P:
                out.add(P)
        if last == '하':
            out.update((P + '해', P + '했'))
        if v == 'ㅣ':
            put((c, 'ㅕ', 'ㅆ'))
    if f == 'ㅎ' and last != '좋':
        put((c, v, ' '), (c, v, 'ㄴ'), (c, v, 'ㄹ'), (c, v, 'ㅆ'), (c, 'ㅐ', 'ㅆ'))
    return out


def invertible(rule, stem, ending, surface):
    """Alternations the lemmatizer undoes."""
    P = stem[:-1]
    c, v, f = decompose(stem[-1])
    full = is_syllable(ending[0])
    ec, ev, ef = decompose(ending[0])
    if full and ef == 'ㅎ':
        return False
    if surface == stem + ending:
        return True
    if rule in ('ㄷ to ㄹ', 'ㅅ dropped', '우 + 어', '오 + 아'):
        return True
    if rule == '르 to ㄹㄹ':
        return decompose(P[-1])[2] == ' '
    if rule == 'ㅂ to glide':
        return ev == 'ㅓ' or not (P and stem[-1] in '답꼽깝롭')
    if rule == 'ㅂ dropped':
        return compose(ec, ev, ' ') not in '워와' and ending[1:2] != '려'
    if rule == 'final consonant joins the stem':
        return f in ' ㄹㅂㅎ' and f != ending[0]
    if rule in ('으 dropped', 'ㅡ dropped'):
        return ev in 'ㅏㅓ'
    if rule == '하 to 해':
        return ev == 'ㅏ'
    if rule == 'ㅎ dropped':
        return v in 'ㅏㅓ'
    if rule == 'ㅎ contracted':
        if P.endswith('그') and c == 'ㄹ':
            return v == 'ㅓ' and ef in ' ㄴㄹㅂㅆ'
        return v == ev and ef in ' ㄴㄹㅂㅆ'
    if rule == 'ㅣ + 어':
        return ef in ' ㅅㅆ'
    return False


ENDINGS = ['다', '고', '는', '면', '네', '니', '려고', '러', '으면', '은', '을까', '아', '어', '아서', '어서', '았다', '었다', '었었다', '아라', '어라', '여', '였다',
           'ㄴ', 'ㄹ', 'ㅁ', 'ㅂ니다', 'ㅆ다', 'ㄹ까', 'ㄴ다', '거든', '거라', '지', '자', '습니다', '워', '와', '이', '오', '우', '요', '울까', '우려고', '런', '라', '렀다',
           '않', '안', '엇다', '얼', '업', '입니다', '어라요', '아라니까', '었던건데', '거나', '허', '너라']
SPECIAL = '르하푸벗좋놓가오우답롭꼽깝곱렇랗그랍붓낫깨걷듣크끄으이지치주두보아어'


# Long stems and endings: what is far from the boundary must not matter.
FAR_PREFIX = ['하' * k for k in range(1, 9)] + ['르' * k for k in (2, 3, 7)] + ['푸르' * k for k in (1, 2, 4)] + ['그' * k for k in (1, 2, 6)] + ['구르' * k for k in (1, 3)] + ['가나다라마바사아자차'[:k] for k in range(1, 11)]
FAR_TAIL = ['다' * k for k in (1, 3, 8)] + ['어' * k for k in (1, 2, 4, 7)] + ['아' * k for k in (2, 5)] + ['라' * k for k in (1, 2, 6)] + ['습니다만서도말이야요'[:k] for k in range(1, 11)] + ['었었었습니다', '려려려려', 'ㅋㅋㅋ', 'ㄴㄴ', 'ㅋㅋㅋ다', 'ㄴ다ㄴ다', '겠더라구요ㅎㅎ']
FAR_HEAD = ['다', '어', '아', '었', '았', '으', '은', '네', '려', '우', '라', '러', 'ㄴ', 'ㄹ', 'ㅁ', 'ㅂ', 'ㅆ']
