"""P09: MaxScoreTokenizer greedy semantics."""
import itertools

from mc import gen
from mc.core import Harness

PROP = dict(
    id='P09',
    title='The max-score tokenizer takes the best non-overlapping subwords greedily',
    statement=(
        'For every score dictionary, maximum length and word of three to two hundred characters, the max-score tokenizer repeatedly takes, among the substrings of two up to the maximum number of characters that do not overlap what was taken before, the one with the highest score (unknown substrings count with the default score), ties going to the longer and then the leftmost; what remains between them becomes one token per gap, and a word of one or two characters is one token. '
        'In the unflattened result each token comes in text order with its begin offset, end offset, its dictionary score or the default score, and its length.'),
    quantifier=dict(over=['inputs', 'configurations'], text='all words, score dictionaries, maximum lengths and default scores'),
    why_tests_cant='Only one sentence is tokenized and printed; greedy selection order, ties and offsets are never checked.',
    anchors=dict(files=['soynlp/tokenizer/_tokenizer.py'],
                 mechanism=[dict(name='MaxScoreTokenizer._initialize / _find / _add_*', where='soynlp/tokenizer/_tokenizer.py')],
                 observe_at=['MaxScoreTokenizer.tokenize'], hook_needed=None))

CHECK = dict(
    technique='bounded-exhaustive enumeration of score dictionaries x words on the real tokenizer against a greedy selection reference',
    level_note='Every assignment of menu values to all substrings of a word of up to 5 letters, every word over {a,b} with dictionaries over its short substrings, and a periodic long family up to 200 characters.',
    assumptions=['maximum length is at least 2; words longer than 200 characters are outside the domain (the implementation caps the number of picks)'])


def greedy(token, scores, ml, ds):
    n = len(token)
    if n <= 2:
        return [(token, 0, n, scores.get(token, ds), n)]
    cands = [(b, b + k) for b in range(n) for k in range(2, min(ml, n) + 1) if b + k <= n]
    cands.sort(key=lambda p: (-scores.get(token[p[0]:p[1]], ds), -(p[1] - p[0]), p[0]))
    used = [False] * n
    cuts = []
    for b, e in cands:
        if not any(used[b:e]):
            used[b:e] = [True] * (e - b)
            cuts.append((b, e))
    i = 0
    while i < n:
        if used[i]:
            i += 1
            continue
        j = i
        while j < n and not used[j]:
            j += 1
        cuts.append((i, j))
        i = j
    cuts.sort()
    return [(token[b:e], b, e, scores.get(token[b:e], ds), e - b) for b, e in cuts]


def harnesses(tier):
    from soynlp.tokenizer import MaxScoreTokenizer
    deep = tier == 'thorough'

    def compare(tok, s, scores, ml, ds, rec):
        want = [greedy(t, scores, ml, ds) for t in s.split()]
        what = 'word %r, scores=%r, max_length=%d, default=%r' % (s, scores, ml, ds)
        got = [[tuple(x) for x in w] for w in tok.tokenize(s, flatten=False)]
        rec.equal(got, want, 'unflattened tokens of ' + what)
        rec.equal(list(tok(s)), [x[0] for w in want for x in w], 'tokens of ' + what)
        rec.outcome(tuple(x[4] for w in want for x in w)[:8])

    def run_assign(case, rec):
        n, menu, first, ml, ds = case
        word = 'abcdefg'[:n]
        subs = [word[b:e] for b in range(n) for e in range(b + 2, n + 1)]
        single = {word[i]: 0.125 * (i + 1) for i in range(0, n, 2)}
        for vals in itertools.product(menu, repeat=len(subs) - len(first)):
            vals = tuple(first) + vals
            scores = {p: v for p, v in zip(subs, vals) if v is not None}
            scores.update(single)
            rec.state((n, vals, ml, ds))
            compare(MaxScoreTokenizer(scores, ml, ds), word, scores, ml, ds, rec)
            rec.trace()
        rec.sample(case)

    grams = ['aa', 'ab', 'ba', 'bb', 'aab', 'aba', 'bab', 'baa']
    texts = list(gen.words_upto('ab', 8 if deep else 7)) + ['ab ab', ' a bab aab ', 'b\taabba\n']

    def run_texts(case, rec):
        vals, ml, ds = case
        scores = {w: v for w, v in zip(grams, vals) if v is not None}
        tok = MaxScoreTokenizer(scores=scores, max_length=ml, default_score=ds)
        for s in texts:
            rec.state((tuple(vals), ml, ds, s))
            compare(tok, s, scores, ml, ds, rec)
        rec.trace()
        rec.sample(case)

    def run_long(case, rec):
        u, n, ml, which = case
        s = (u * n)[:n]
        scores = [{}, {'ab': 0.5, 'ba': 0.75, 'a': 1.0}, {s[:11]: 0.5, s[3:6]: 0.25, s[-2:]: 0.125}, {s: 2.0, 'ab': 1.0}, {s[5:20]: -1.0, 'ab': -0.5}, {'aba': 0.5, 'bab': 0.5, 'c': 1.0}][which]
        rec.state(tuple(case))
        compare(MaxScoreTokenizer(scores, ml), s, scores, ml, 0.0, rec)
        for ds in (0.5, -0.5, 0.0):
            compare(MaxScoreTokenizer(dict(scores, **{s[1:3]: 0.0}), ml, ds), s, dict(scores, **{s[1:3]: 0.0}), ml, ds, rec)
        if ml == 10:
            compare(MaxScoreTokenizer(scores), s, scores, 10, 0.0, rec)     # the default length
        rec.trace()

    m4 = [None, 0.25, 0.5, -0.5, 0.0]
    roots = [[3, m4, [], ml, ds] for ml in (2, 3, 10) for ds in (0.0, 0.5, -0.25)]
    roots += [[4, m4, [v], ml, ds] for v in m4 for ml in (2, 3, 4, 10) for ds in ((0.0, 0.25, -0.25) if deep else (0.0 if ml in (2, 4) else -0.25, 0.25))]
    roots += [[5, [None, 0.5] if not deep else [None, 0.5, 0.25], list(t), ml, ds] for t in itertools.product([None, 0.5, 0.25], repeat=2) for ml in (2, 3, 10) for ds in ((0.0, 0.375) if deep else (0.0,))]
    gm = [None, 0.5]
    # one long word in which every 4-gram over 4 letters occurs, cut into pieces of up to 200 characters
    seq = ''.join(gen.debruijn('abcd', 4))
    grams4 = [''.join(x) for k in (2, 3, 4) for x in itertools.product('abcd', repeat=k)]

    def run_every(case, rec):
        i, ml, ds = case
        scores = {g: [0.0, 0.25, 0.5, -0.5, 0.75, 1.0][gen.mix(j + i) % 6] for j, g in enumerate(grams4) if gen.mix(j * 7 + i) % 3}
        tok = MaxScoreTokenizer(scores, ml, ds)
        for b in range(0, len(seq), 23):
            for n in (3, 4, 7, 24, 200):
                rec.state((i, ml, ds, b, n))
                compare(tok, seq[b:b + n], {k: v for k, v in scores.items() if k in seq[b:b + n]}, ml, ds, rec)
        text = ' '.join(seq[b:b + 5 + b % 9] for b in range(0, len(seq), 1)) 
        compare(tok, text, scores, ml, ds, rec)
        # many words with unusual characters
        odd = '\t'.join('%sab%s' % (c, c * k) for c in '\x00\u200b\ufeff.,()[]0A가ㄱ😀\u0301' for k in range(4))
        compare(tok, odd, scores, ml, ds, rec)
        rec.trace()

    def run_many(case, rec):
        n, ml = case
        text = ' '.join('w%dx%d' % (i % 977, i // 3) for i in range(n))
        scores = {'w%d' % i: 0.5 + (i % 7) / 16 for i in range(0, 977, 2)}
        scores.update(('x%d' % i, (i % 5) / 4) for i in range(0, 70000, 3))
        rec.state((n, ml))
        rec.step(n)
        tok = MaxScoreTokenizer(scores, ml)
        want = [greedy(t, scores, ml, 0.0) for t in text.split()]
        rec.check([[tuple(x) for x in w] for w in tok.tokenize(text, flatten=False)] == want, 'unflattened tokens of a text of %d words', n)
        rec.check(list(tok.tokenize(text)) == [x[0] for w in want for x in w], 'tokens of a text of %d words', n)
        rec.trace()

    return [
        Harness('assignments', run_assign, roots, about='every score assignment to all substrings of a word of distinct letters', bound='word length <= 5'),
        Harness('texts', run_texts, [[list(t), ml, ds] for t in itertools.product(gm, repeat=len(grams)) for ml, ds in (((10, 0.0), (2, 0.0), (3, 0.75)) if not deep else ((10, 0.0), (2, 0.0), (3, 0.75), (3, -1.0), (4, 0.25)))], chunk=4, about='every subset of 8 overlapping grams as dictionary x all words over {a,b}', bound='length <= %d' % (8 if deep else 7)),
        Harness('every_gram', run_every, [[i, ml, ds] for i in range(4) for ml in (2, 3, 4, 10) for ds in (0.0, 0.375, -0.25)], about='texts in which every 4-gram over 4 letters occurs, pseudo-random but fixed dictionaries, unusual characters', bound='words <= 200'),
        Harness('many', run_many, [[n, ml] for n in (300, 5000, 70000) for ml in (3, 8)], about='texts of many words with large dictionaries', bound='70000 words'),
        Harness('graded', run_texts, [[list(t), 10, 0.0] for t in itertools.product([None, 0.25, 0.5], repeat=4)], chunk=4, about='graded scores on the four 2-grams', bound='3^4 dictionaries'),
        Harness('long', run_long, [[u, n, ml, w] for u in ['ab', 'aab', 'abc', 'a', '가나다라마바사아자차카타파하'] for n in (11, 12, 25, 61, 130, 200) for ml in (2, 10, 13) for w in range(6)], chunk=8, about='long periodic words', bound='length <= 200'),
    ]
