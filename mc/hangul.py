"""Independent Hangul oracle built on the Unicode character database (NFD), not on soynlp."""
import unicodedata

CHO = 'ㄱㄲㄴㄷㄸㄹㅁㅂㅃㅅㅆㅇㅈㅉㅊㅋㅌㅍㅎ'
JUNG = 'ㅏㅐㅑㅒㅓㅔㅕㅖㅗㅘㅙㅚㅛㅜㅝㅞㅟㅠㅡㅢㅣ'
JONG = ' ㄱㄲㄳㄴㄵㄶㄷㄹㄺㄻㄼㄽㄾㄿㅀㅁㅂㅄㅅㅆㅇㅈㅊㅋㅌㅍㅎ'
JAUM = ''.join(chr(i) for i in range(0x3131, 0x314F))
MOUM = ''.join(chr(i) for i in range(0x314F, 0x3164))


def is_syllable(c):
    return '가' <= c <= '힣'


def is_jaum(c):
    return c in JAUM


def is_moum(c):
    return c in MOUM


def is_hangul(c):
    return is_syllable(c) or is_jaum(c) or is_moum(c)


def decompose(c):
    """(cho, jung, jong) via canonical decomposition."""
    if is_jaum(c):
        return (c, ' ', ' ')
    if is_moum(c):
        return (' ', c, ' ')
    if not is_syllable(c):
        return None
    d = unicodedata.normalize('NFD', c)
    cho = CHO[ord(d[0]) - 0x1100]
    jung = JUNG[ord(d[1]) - 0x1161]
    jong = JONG[ord(d[2]) - 0x11A7] if len(d) == 3 else ' '
    return (cho, jung, jong)


def compose(cho, jung, jong):
    s = chr(0x1100 + CHO.index(cho)) + chr(0x1161 + JUNG.index(jung))
    if jong != ' ':
        s += chr(0x11A7 + JONG.index(jong))
    return unicodedata.normalize('NFC', s)


def jamo_text(s):
    """Text with every syllable written out as its jamo."""
    out = []
    for c in s:
        d = decompose(c)
        out.append(c if d is None else ''.join(x for x in d if x != ' '))
    return ''.join(out)
