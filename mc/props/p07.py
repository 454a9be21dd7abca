"""P07: tokenizers partition the text."""
import itertools

from mc import gen
from mc.core import Harness

PROP = dict(
    id='P07',
    title='Every tokenizer partitions the text: no character lost, added or reordered',
    statement=(
        'For every text, the tokens that the regular-expression, L, max-score and L-R max-score tokenizers return for one whitespace-separated word are nonempty and concatenate back to exactly that word, and the words appear in their order in the text; with the R parts removed the L tokenizer returns one nonempty prefix per word. '
        'The flattened result is the concatenation of the unflattened per-word results, calling the tokenizer object is the same as calling its tokenize method with the same arguments, and a result never depends on earlier calls or changes the dictionaries the tokenizer was given. '
        'The L-R max-score tokenizer tags every token L or R, and tags R only words that are in the R dictionary it was given.'),
    quantifier=dict(over=['inputs', 'configurations', 'histories'], text='all texts, dictionaries, options and call histories'),
    why_tests_cant='The tokenizer test prints tokens of one Korean sentence per tokenizer; the L-R tokenizer is never run and no dictionary/text collision is explored.',
    anchors=dict(
        files=['soynlp/tokenizer/_tokenizer.py'],
        mechanism=[dict(name='RegexTokenizer', where='soynlp/tokenizer/_tokenizer.py'), dict(name='LTokenizer', where='soynlp/tokenizer/_tokenizer.py'),
                   dict(name='MaxScoreTokenizer', where='soynlp/tokenizer/_tokenizer.py'), dict(name='MaxLRScoreTokenizer', where='soynlp/tokenizer/_tokenizer.py')],
        observe_at=['tokenize', '__call__'], hook_needed=None))

CHECK = dict(
    technique='bounded-exhaustive exploration of texts x dictionaries x options x call order on the real tokenizers, partition invariant checked on every result',
    level_note='All texts up to the stated length over colliding alphabets, all dictionary subsets of a fixed menu, all call sequences of length 3; the invariant needs no model of the scoring. Unbounded lengths are only covered by the periodic family.',
    assumptions=['L and R dictionaries contain no empty word'])


def harnesses(tier):
    from soynlp.tokenizer import RegexTokenizer, LTokenizer, MaxScoreTokenizer, MaxLRScoreTokenizer
    deep = tier == 'thorough'

    def partition(groups, s, what, rec):
        ws = s.split()
        rec.equal(len(groups), len(ws), '%s: number of words of %r' % (what, s))
        for g, w in zip(groups, ws):
            rec.check(all(g), '%s: empty token for %r: %r' % (what, w, g))
            rec.equal(''.join(g), w, '%s: tokens of %r joined' % (what, w))

    regex = RegexTokenizer()
    ralpha = ['1', '.', '-', '가', 'ㅋ', 'ㅜ', 's', 'a', "'", '[', ' ', 'é', '_']
    rn = 5 if deep else 4

    def run_regex(s, rec):
        rec.state(s)
        g = regex.tokenize(s, flatten=False)
        partition(g, s, 'regex', rec)
        rec.equal(regex.tokenize(s), [t for x in g for t in x], 'regex flattened %r' % s)
        rec.equal(regex(s), [t for x in g for t in x], 'regex() of %r' % s)
        rec.equal(regex(s, flatten=False), g, 'regex(flatten=False) of %r' % s)
        rec.trace()
        rec.outcome(sum(map(len, g)))
        rec.sample(s)

    def run_regex_block(case, rec):
        lo, hi = case
        for i in range(lo, hi):
            c = chr(i)
            for s in ('가' + c + 'a1', 'a' + c + c + '가 ' + c + '1'):
                rec.state(s)
                g = regex.tokenize(s, flatten=False)
                partition(g, s, 'regex', rec)
                rec.equal(regex(s), [t for x in g for t in x], 'regex() of %r' % s)
        rec.trace()
        rec.outcome('ok')

    # ---- score tokenizers -------------------------------------------------
    texts = list(gen.words_upto('ab ', 7 if deep else 6)) + ['\t' + w + '\n' for w in gen.words_upto('ab ', 3)]
    menu = ['a', 'ab', 'ba', 'aa', 'aab', 'aba', 'bb', 'abab', 'b']
    maxes = (2, 3, 10)

    def run_scores(case, rec):
        mask, ds = case
        scores = {w: 0.25 * (1 + i % 4) for i, w in enumerate(menu) if mask >> i & 1}
        before = dict(scores)
        lt = LTokenizer(scores, ds)
        mts = [MaxScoreTokenizer(scores, max_length=m, default_score=ds) for m in maxes]
        for s in texts:
            rec.state((mask, ds, s))
            for tol in (0.0, 0.25, 1.0):
                g = lt.tokenize(s, tolerance=tol, flatten=False)
                partition([[x for x in p if x] for p in g], s, 'L', rec)
                flat = [x for p in g for x in p if x]
                rec.equal(lt.tokenize(s, tolerance=tol), flat, 'L flattened %r' % s)
                rec.equal(lt(s, tol), flat, 'L() of %r' % s)
                rec.equal(list(lt(s, tolerance=tol, remove_r=True)), [p[0] for p in g], 'L remove_r of %r' % s)
                rec.check(all(p[0] for p in g), 'L: empty L part in %r' % (g,))
            for m, mt in zip(maxes, mts):
                g = mt.tokenize(s, flatten=False)
                partition([[x[0] for x in p] for p in g], s, 'max-score', rec)
                rec.equal(mt.tokenize(s), [x[0] for p in g for x in p], 'max-score flattened %r' % s)
                rec.equal(mt(s), [x[0] for p in g for x in p], 'max-score() of %r' % s)
                rec.equal(mt(s, flatten=False), g, 'max-score(flatten=False) of %r' % s)
            rec.outcome(len(flat))
        rec.equal(scores, before, 'score dictionary after tokenizing')
        rec.trace()
        rec.sample(case)

    # ---- L-R tokenizer ------------------------------------------------------
    lmenu = ['a', 'ab', 'aba', 'ba', 'bb']
    rmenu = ['b', 'a', 'ba', 'bab', 'aa']
    lr_texts = list(gen.words_upto('ab', 7 if deep else 6, lo=1)) + ['ab ab', ' abab  baa', 'aab cab', 'xaby yabx', 'abxba', '']

    def run_lr(case, rec):
        lm, rm, variant = case
        Dl = {w: (0.25 * (1 + i % 4) if variant != 1 else 1.0) for i, w in enumerate(lmenu) if lm >> i & 1}
        Dr = {w: (0.25 * (1 + (i + 1) % 4) if variant != 1 else 1.0) for i, w in enumerate(rmenu) if rm >> i & 1}
        Pl = {'ab': 1.5} if variant == 2 else None
        Pr = {'ba': 0.75} if variant == 2 else None
        keep = (dict(Dl), dict(Dr))
        if variant == 1:
            tok = MaxLRScoreTokenizer(Dl=list(Dl), Dr=list(Dr))
        else:
            tok = MaxLRScoreTokenizer(Dl=Dl, Dr=Dr, preference_l=Pl, preference_r=Pr)
        allowed = set(Dr) | set(Pr or ())
        memory = {}
        for s in lr_texts:
            rec.state((lm, rm, variant, s))
            g = tok.tokenize(s, flatten=False)
            memory[s] = g
            partition([[x[0] for x in p] for p in g], s, 'L-R (L=%r R=%r)' % (sorted(Dl), sorted(Dr)), rec)
            for p in g:
                for w, tag in p:
                    rec.check(tag in ('L', 'R'), 'L-R: tag %r' % (tag,))
                    rec.check(tag != 'R' or w in allowed, 'L-R: %r tagged R in %r but not in the R dictionary %r' % (w, s, sorted(allowed)))
            flat = [x for p in g for x in p]
            rec.equal(tok.tokenize(s), flat, 'L-R flattened %r' % s)
            rec.equal(tok(s), flat, 'L-R() of %r' % s)
            rec.outcome(''.join(x[1] for x in flat))
        for s in reversed(lr_texts[-40:]):
            rec.equal(tok.tokenize(s, flatten=False), memory[s], 'L-R of %r repeated later' % s)
        rec.equal((Dl, Dr), keep, 'dictionaries after tokenizing')
        rec.trace()
        rec.sample(case)

    # ---- call histories -----------------------------------------------------
    ops = ['abab b', 'aabab', 'ab', '', 'baba aa', 'bbbbabab']

    def run_history(case, rec):
        scores = {'ab': 0.5, 'aba': 0.75, 'bb': 0.25, 'a': 1.0}
        toks = [LTokenizer(dict(scores)), MaxScoreTokenizer(dict(scores)), MaxLRScoreTokenizer(Dl=dict(scores), Dr={'b': 0.5, 'ab': 0.25}), RegexTokenizer()]
        fresh = [[LTokenizer(dict(scores)).tokenize(s, flatten=False), MaxScoreTokenizer(dict(scores)).tokenize(s, flatten=False),
                  MaxLRScoreTokenizer(Dl=dict(scores), Dr={'b': 0.5, 'ab': 0.25}).tokenize(s, flatten=False), RegexTokenizer().tokenize(s, flatten=False)] for s in ops]
        rec.state(tuple(map(tuple, case)))
        for i, t in case:
            rec.equal(toks[t].tokenize(ops[i], flatten=False), fresh[i][t], 'call %r in history %r' % (ops[i], case))
        rec.trace()
        rec.outcome('ok')

    steps = [[i, t] for i in range(len(ops)) for t in range(4)]
    longs = [u * k for u in ['ab', 'aab', 'abc', 'a b', '가1a', '-1.', "s's ", 'ㅋㅜ.[', 'xaby'] for k in (15, 40, 150)]

    def run_long(s, rec):
        run_regex(s, rec)
        scores = {'ab': 0.5, 'aba': 0.75, 'bb': 0.25, 'a': 1.0, 'abababab': 0.6, '가1': 0.1}
        partition([[x for x in p if x] for p in LTokenizer(scores).tokenize(s, flatten=False)], s, 'L', rec)
        for ml in (2, 7, 10, 25):
            for sc in (scores, {}):
                partition([[x[0] for x in p] for p in MaxScoreTokenizer(sc, max_length=ml).tokenize(s, flatten=False)], s, 'max-score', rec)
        if len(s) <= 200:
            partition([[x[0] for x in p] for p in MaxLRScoreTokenizer(Dl=scores, Dr={'b': 0.5, 'ba': 0.4, 'c': 1.0}).tokenize(s, flatten=False)], s, 'L-R', rec)

    def run_scale(case, rec):
        k, chars, n, cut = case
        base = ''.join(gen.debruijn(list(chars), k))
        s = (base * (n // len(base) + 1))[:n] if n else base
        s = ' '.join(s[i:i + cut] for i in range(0, len(s), cut)) if cut else s
        rec.state(tuple(case))
        g = regex.tokenize(s, flatten=False)
        partition(g, s, 'regex', rec)
        rec.check(regex.tokenize(s) == [t for x in g for t in x], 'regex flattened text %r', case)
        scores = {}
        for i, w in enumerate(itertools.product(chars.replace(' ', '')[:6], repeat=2)):
            scores[''.join(w)] = (i % 5) / 4
            scores[''.join(w) + w[0]] = (i % 3) / 2
        for ds in (0.0, 0.3):
            lt = LTokenizer(scores, ds)
            for tol in (0.0, 0.3):
                g = lt.tokenize(s, tolerance=tol, flatten=False)
                partition([[x for x in p if x] for p in g], s, 'L', rec)
                rec.check(lt.tokenize(s, tolerance=tol) == [x for p in g for x in p if x], 'L flattened text %r', case)
                rec.check(list(lt(s, tolerance=tol, remove_r=True)) == [p[0] for p in g], 'L remove_r of text %r', case)
            if cut and cut <= 200:
                for ml in (2, 5):
                    mt = MaxScoreTokenizer(scores, max_length=ml, default_score=ds)
                    g = mt.tokenize(s, flatten=False)
                    partition([[x[0] for x in p] for p in g], s, 'max-score', rec)
                    rec.check(mt.tokenize(s) == [x[0] for p in g for x in p], 'max-score flattened text %r', case)
        if cut and cut <= 40:
            Dr = {w: v for w, v in scores.items() if gen.mix(len(w) + ord(w[0])) % 2}
            mlt = MaxLRScoreTokenizer(Dl=scores, Dr=Dr)
            g = mlt.tokenize(s, flatten=False)
            partition([[x[0] for x in p] for p in g], s, 'L-R', rec)
            rec.check(all(tag == 'L' or tag == 'R' and w in Dr for p in g for w, tag in p), 'L-R: tags of text %r', case)
            rec.check(mlt.tokenize(s) == [x for p in g for x in p], 'L-R flattened text %r', case)
        rec.trace()
        rec.outcome(len(g))

    scales = [[k, c, n, cut] for k, c, n in ((4, "1.-가ㅋㅜsa'[é_", 0), (3, "1.가ㅋㅏa?!\u200b\u0301🙂ĀA0", 0), (6, 'ab가', 0), (2, 'ab1', 70000)) for cut in (0, 3, 7, 19, 150, 900)]
    return [
        Harness('scale', run_scale, scales, about='long texts and long words in which every k-gram of the classes occurs', bound='70000 characters'),
        Harness('regex_texts', run_regex, gen.prefix_roots(ralpha, rn), expand=gen.expand_prefix(ralpha), chunk=4, about='all texts over 13 class representatives', bound='length <= %d' % rn),
        Harness('regex_code_points', run_regex_block, gen.blocks(0x110000 if deep else 0x12000, 0x800), about='every code point in two contexts', bound='complete' if deep else 'complete below U+12000'),
        Harness('score_dictionaries', run_scores, [[m, ds] for m in range(1 << len(menu)) for ds in ((0.0, 0.5) if deep else (0.0,))] + [[m, 0.5] for m in range(0, 1 << len(menu), 5)], chunk=4, about='every subset of 9 overlapping words as dictionary x all texts over {a,b,blank}', bound='texts <= %d' % (7 if deep else 6)),
        Harness('lr_dictionaries', run_lr, [[l, r, v] for v in range(3) for l in range(32) for r in range(32)], chunk=16, about='every pair of subsets of 5 L and 5 R words x 3 ways of giving them x all words over {a,b}', bound='words <= %d' % (7 if deep else 6)),
        Harness('histories', run_history, [list(t) for t in itertools.product(steps, repeat=2)] + ([list(t) for t in itertools.product(steps, repeat=3)] if deep else []), chunk=64, about='call histories on shared tokenizer objects against fresh objects', bound='depth %d' % (3 if deep else 2)),
        Harness('long', run_long, longs, about='long periodic texts', bound='length <= 600'),
    ]
