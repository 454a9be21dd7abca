"""P08: LTokenizer picks the best L."""
import itertools

from mc import gen
from mc.core import Harness

PROP = dict(
    id='P08',
    title='The L tokenizer cuts each word at the best-scoring (or longest tolerable) prefix',
    statement=(
        'For every score dictionary and word of three or more characters, the L tokenizer splits off as L part the prefix of at least two characters (possibly the whole word) with the highest score, unknown prefixes counting with the default score and ties going to the longest prefix; with a positive tolerance it takes the longest prefix whose score is within the tolerance of that maximum. '
        'Words of one or two characters are never split. Removing the R parts returns exactly these L parts, one per word.'),
    quantifier=dict(over=['inputs', 'configurations', 'histories'], text='all texts, score dictionaries, default scores and tolerances'),
    why_tests_cant='One sentence with one dictionary is printed; ties, tolerances, defaults and negative scores are never explored.',
    anchors=dict(files=['soynlp/tokenizer/_tokenizer.py'], mechanism=[dict(name='LTokenizer.tokenize', where='soynlp/tokenizer/_tokenizer.py')],
                 observe_at=['LTokenizer.tokenize', 'LTokenizer.__call__'], hook_needed=None))

CHECK = dict(
    technique='bounded-exhaustive enumeration of score assignments x tolerances on the real tokenizer against an arg-max reference',
    level_note='Every assignment of a value from the menu (or absence) to every prefix of a word up to the stated length, all default scores and tolerances of the menu; values are dyadic so that thresholds are exact. Scores outside the menu and longer words only through the long family.',
    assumptions=['scores are finite numbers'])


def best_l(token, scores, ds, tol):
    if len(token) <= 2:
        return token, ''
    sc = [(scores.get(token[:e], ds), e) for e in range(2, len(token) + 1)]
    top = max(s for s, _ in sc)
    if tol > 0:
        e = max(e for s, e in sc if top - s <= tol)
    else:
        e = max(e for s, e in sc if s == top)
    return token[:e], token[e:]


def harnesses(tier):
    from soynlp.tokenizer import LTokenizer
    deep = tier == 'thorough'
    menu = [None, 0.0, 0.25, 0.5, 1.0, -0.5]
    tols = (0.0, 0.25, 0.5, 1.0)
    defaults = (0.0, 0.25, -1.0) if not deep else (0.0, 0.25, -1.0, 0.75, 2.0)

    def compare(tok, s, scores, ds, rec):
        for tol in tols:
            want = [best_l(t, scores, ds, tol) for t in s.split()]
            what = '%r, scores=%r, default=%r, tolerance=%r' % (s, scores, ds, tol)
            rec.equal([tuple(p) for p in tok.tokenize(s, tolerance=tol, flatten=False)], want, 'pairs of ' + what)
            rec.equal(list(tok.tokenize(s, tolerance=tol)), [x for p in want for x in p if x], 'tokens of ' + what)
            rec.equal(list(tok(s, tol, True, True)), [p[0] for p in want], 'L parts of ' + what)
            rec.equal(list(tok(s, tolerance=tol, flatten=False, remove_r=True)), [p[0] for p in want], 'unflattened L parts of ' + what)
            if tol == 0:
                flat = [x for p in want for x in p if x]
                rec.equal((list(tok(s)), list(tok.tokenize(s))), (flat, flat), 'tokens without options of ' + what)
        rec.outcome(tuple(len(p[0]) for p in want))

    def run_assign(case, rec):
        n, first = case
        word = 'abcdefgh'[:n]
        prefixes = [word[:e] for e in range(2, n + 1)]
        for vals in itertools.product(menu, repeat=len(prefixes) - len(first)):
            vals = tuple(first) + vals
            scores = {p: v for p, v in zip(prefixes, vals) if v is not None}
            for ds in defaults:
                rec.state((n, vals, ds))
                tok = LTokenizer(scores, ds)
                compare(tok, word, scores, ds, rec)
            rec.trace()
        rec.sample(case)

    texts = list(gen.words_upto('ab ', 7 if deep else 6))
    wmenu = ['ab', 'aba', 'aa', 'aab', 'ba', 'abab', 'bbb']

    def run_texts(case, rec):
        scores = {w: v for w, v in zip(wmenu, case) if v is not None}
        tok = LTokenizer(scores, 0.25)
        for s in texts:
            rec.state((tuple(case), s))
            compare(tok, s, scores, 0.25, rec)
        rec.trace()
        rec.sample(case)

    def run_short(case, rec):
        # words of one or two characters stay whole whatever the dictionary says; constructor defaults
        s, kind = case
        scores = {'a': 5.0, 'ab': -3.0, 'b': 2.0, 'aba': 0.5, '': 9.0}
        tok = LTokenizer() if kind == 0 else LTokenizer(scores) if kind == 1 else LTokenizer(scores=scores, default_score=3.0)
        sc = {} if kind == 0 else scores
        rec.state((s, kind))
        compare(tok, s, sc, 3.0 if kind == 2 else 0.0, rec)
        rec.trace()

    def run_long(case, rec):
        n, best, second = case
        word = ('가나다라마바사아자차카타파하' * 10)[:n]
        scores = {word[:best]: 0.75}
        scores.setdefault(word[:second], 0.5)
        tok = LTokenizer(scores)
        rec.state(tuple(case))
        compare(tok, word + ' ' + word[:3] + '\u3000' + word[::-1], scores, 0.0, rec)
        rec.trace()

    def run_scale(case, rec):
        n, which = case
        seq = ''.join(gen.debruijn('abc', 4)) * (n // 80 + 1)
        scores = {}
        for i, e in enumerate(range(2, n + 1, max(1, n // 90))):
            scores[seq[:e]] = [(i % 7) / 8, 0.5 - i / 1024, i / 1024, 0.25 if i % 3 else -0.25][which]
        scores.update(('w%d' % i, (i % 9) / 8) for i in range(0, 20000, 3))
        words = [seq[:n], seq[:n // 2] + 'x', seq[1:n], 'ab'] + ['w%d조사' % i for i in range(0, 20000 if n > 500 else 900, 7)]
        for ds in (0.0, 0.375, -0.125):
            tok = LTokenizer(scores, ds)
            s = ' '.join(words)
            rec.state((n, which, ds))
            for tol in (0.0, 0.125, 0.5):
                want = [best_l(t, scores, ds, tol) for t in words]
                rec.step(len(words))
                rec.check([tuple(p) for p in tok.tokenize(s, tolerance=tol, flatten=False)] == want, 'pairs of a long text, case %r, default %r, tolerance %r', case, ds, tol)
                rec.check(list(tok.tokenize(s, tolerance=tol)) == [x for p in want for x in p if x], 'tokens of a long text, case %r, default %r, tolerance %r', case, ds, tol)
        for c in '\x00\u200b\ufeff\u0301.,()0A가ㄱ😀':
            for w in (c, c * 2, c * 3, 'ab' + c, c + 'abab', 'a' + c + 'b'):
                sc = {'ab': 0.5, c * 2: 0.25, 'ab' + c: 0.5, 'a' + c: 1.0}
                rec.state((c, w))
                compare(LTokenizer(sc, 0.25), w + ' ' + w, sc, 0.25, rec)
        rec.trace()

    def run_fine(case, rec):
        # scores that differ from the best one, or from the tolerance, by very little; very large and very small scores
        top, scale, tol = case
        for delta in (1e-1, 1e-3, 1e-5, 1e-7, 1e-9):
            for at, sign in itertools.product((2, 3, 4, 5), (-1, 1)):
                for gap in (0.0, tol):
                    if gap == 0.0 and sign < 0:
                        continue
                    scores = {w: top * scale for w in ('abcde'[:top_at] for top_at in (3,))}
                    if at == 3:
                        continue
                    scores['abcde'[:at]] = (top - (gap + sign * delta)) * scale
                    for ds in (-9.0 * scale, (top - tol - 2 * delta) * scale):
                        rec.state((top, scale, tol, delta, at, sign, gap, ds))
                        tok = LTokenizer(scores, ds)
                        for t in (0.0, tol * scale):
                            want = best_l('abcdef', scores, ds, t)
                            rec.equal([tuple(p) for p in tok.tokenize('abcdef', tolerance=t, flatten=False)], [want], 'pairs of abcdef, scores %r, default %r, tolerance %r' % (scores, ds, t))
        rec.trace()

    nmax = 7 if deep else 6
    roots = []
    for n in range(3, nmax + 1):
        k = min(2, n - 2)
        roots += [[n, list(t)] for t in itertools.product(menu, repeat=k)]
    return [
        Harness('assignments', run_assign, roots, chunk=1, about='every score assignment (6 values) to every prefix x defaults x tolerances', bound='word length <= %d' % nmax),
        Harness('texts', run_texts, [list(t) for t in itertools.product([None, 0.5] if not deep else [None, 0.5, 0.0], repeat=len(wmenu))], chunk=4, about='all texts over {a,b,blank} x dictionaries over 7 words', bound='length <= %d' % (7 if deep else 6)),
        Harness('short_words', run_short, [[s, k] for s in gen.words_upto('ab ', 5) for k in range(3)], chunk=64, about='dictionaries with one- and two-character entries, default construction', bound='length <= 5'),
        Harness('fine', run_fine, [[t, s, tol] for t in (0.5, 1.0, 0.0, -0.25) for s in (1.0, 1e-6, 1e6, 3.0) for tol in (0.1, 0.25, 0.001)], about='scores that differ from the best or from the tolerance by little, very large and very small scores', bound='differences down to 1e-9'),
        Harness('scale', run_scale, [[n, w] for n in (90, 280, 1500, 3000) for w in range(4)], about='long words with graded prefixes, long texts, large dictionaries, unusual characters', bound='words <= 3000'),
        Harness('long', run_long, [[n, b, s] for n in (10, 15, 30, 60) for b in range(2, n + 1, max(1, n // 12)) for s in range(2, n + 1, max(1, n // 12))], chunk=16, about='long words with two known prefixes', bound='length <= 60'),
    ]
