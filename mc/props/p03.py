"""P03: set / bag distances."""
import itertools
from fractions import Fraction
from collections import Counter
from math import sqrt

from mc import gen
from mc.core import Harness

PROP = dict(
    id='P03',
    title='Cosine and Jaccard string distances equal their definitions',
    statement=(
        'For every two nonempty strings the cosine distance is 1 minus the cosine of their unit-frequency vectors and the Jaccard distance is 1 minus the size of the intersection over the size of the union of their unit sets, '
        'where the units are the characters or whatever the caller-supplied function extracts. '
        'Both are symmetric, within [0, 1] for nonempty strings, and 0 when the bags (sets) coincide; with an empty string the cosine distance is 2 and the Jaccard distance is 1.'),
    quantifier=dict(over=['inputs', 'configurations'], text='all pairs of strings, any unit extractor'),
    why_tests_cant='The test prints both distances for one pair and asserts nothing.',
    anchors=dict(
        files=['soynlp/hangle/_distance.py'],
        mechanism=[dict(name='cosine_distance', where='soynlp/hangle/_distance.py'), dict(name='jaccard_distance', where='soynlp/hangle/_distance.py')],
        observe_at=['soynlp.hangle.cosine_distance', 'soynlp.hangle.jaccard_distance'], hook_needed=None))

CHECK = dict(
    technique='bounded-exhaustive enumeration of string pairs x unit extractors against exact rational definitions',
    level_note='All ordered string pairs up to the stated length over a 4-character alphabet for 4 unit extractors, and a structured long family.',
    assumptions=[])


def cos_ref(c1, c2):
    dot = sum(f * c2.get(k, 0) for k, f in c1.items())
    n = sum(f * f for f in c1.values()) * sum(f * f for f in c2.values())
    return 1 - dot / sqrt(n)


def harnesses(tier):
    from soynlp.hangle import cosine_distance, jaccard_distance
    deep = tier == 'thorough'
    alpha = 'ab가 '
    n = 5 if deep else 4
    rights = list(gen.words_upto(alpha, n if not deep else 4))

    extractors = {
        'chars': (None, lambda s: list(s)),
        'bigrams': (lambda s: ['<' + s[:1]] + [s[i:i + 2] for i in range(len(s) - 1)], None),
        'words': (lambda s: s.split() + ['#'], None),
        'weighted': (lambda s: {c: 2 * s.count(c) + 1 for c in s}, None),
    }

    def compare(s1, s2, name, rec):
        f, chars = extractors[name]
        if name == 'chars':
            u1, u2 = Counter(s1), Counter(s2)
            kw1, kw2 = {}, {}
        elif name == 'weighted':
            u1, u2 = f(s1), f(s2)
            kw1 = dict(unitfy=f)
            kw2 = dict(unitfy=lambda s: set(f(s)))
        else:
            u1, u2 = Counter(f(s1)), Counter(f(s2))
            kw1 = dict(unitfy=lambda s: Counter(f(s)))
            kw2 = dict(unitfy=lambda s: set(f(s)))
        want_c = 2 if not s1 or not s2 else cos_ref(u1, u2)
        want_j = 1 if not s1 or not s2 else 1 - Fraction(len(set(u1) & set(u2)), len(set(u1) | set(u2)))
        rec.state((name, s1, s2))
        dc = cosine_distance(s1, s2, **kw1)
        rec.close(dc, want_c, 'cosine_distance(%r,%r) [%s]' % (s1, s2, name))
        dj = jaccard_distance(s1, s2, **kw2)
        rec.close(dj, float(want_j), 'jaccard_distance(%r,%r) [%s]' % (s1, s2, name))
        rec.outcome('%.3f/%.3f' % (want_c, float(want_j)))

    def run(case, rec):
        s1, name = case
        for s2 in rights:
            compare(s1, s2, name, rec)
        rec.trace()
        rec.sample(case)

    longs = [(u * k)[:k] + t for u in ['a', 'ab', 'abc가', 'ㅋㅋ하'] for k in (3, 7, 50, 300) for t in ('', 'z', 'aa')]

    def run_long(case, rec):
        i, j = case
        compare(longs[i], longs[j], 'chars', rec)
        compare(longs[i], longs[j], 'bigrams', rec)
        rec.trace()

    def chunk_of(n, start):
        return ''.join(chr(0x4e00 + (start + i) % 20000 + (0x6000 if (start + i) % 20000 + 0x4e00 >= 0xD000 else 0)) for i in range(n))

    def run_scale(case, rec):
        # many different units, large counts
        n1, n2, shared, rep = case
        common = chunk_of(shared, 0)
        s1 = common * rep + chunk_of(n1, 9000) + 'a' * (rep - 1) * 7
        s2 = chunk_of(n2, 14000) + common + 'a'
        for name in extractors:
            for x, y in ((s1, s2), (s2, s1), (s1, s1)):
                if name == 'weighted' and len(x) + len(y) > 3000:
                    continue
                f, chars = extractors[name]
                u1, u2 = [Counter(z) if name == 'chars' else f(z) if name == 'weighted' else Counter(f(z)) for z in (x, y)]
                kw1 = {} if name == 'chars' else dict(unitfy=(f if name == 'weighted' else lambda s: Counter(f(s))))
                kw2 = {} if name == 'chars' else dict(unitfy=lambda s: set(f(s)))
                rec.state((name, n1, n2, shared, rep, x == s1, y == s1))
                what = '%s of strings with %d and %d different units' % (name, len(u1), len(u2))
                rec.close(cosine_distance(x, y, **kw1), cos_ref(u1, u2), 'cosine distance, ' + what)
                rec.close(jaccard_distance(x, y, **kw2), float(1 - Fraction(len(set(u1) & set(u2)), len(set(u1) | set(u2)))), 'jaccard distance, ' + what)
                rec.outcome(len(u1))
        rec.trace()

    sizes = [0, 1, 40, 300, 1100, 4500]
    return [
        Harness('scale', run_scale, [[a, b, c, r] for a in sizes for b in sizes for c in (1, 30, 1500) for r in (1, 50)], chunk=4, about='thousands of different units and large counts, both orders', bound='6000 units, count 75000'),
        Harness('pairs', run, [[s, name] for name in extractors for s in gen.words_upto(alpha, n)], chunk=16, about='all ordered string pairs for each unit extractor', bound='length <= %d vs <= 4 over %r' % (n, alpha)),
        Harness('long', run_long, [list(t) for t in itertools.product(range(len(longs)), repeat=2)], chunk=128, about='periodic long strings', bound='length <= 302'),
    ]
