"""P15: EojeolCounter."""
import itertools
import os
import tempfile
from collections import Counter

from mc import gen
from mc.core import Harness
from mc.props.p14 import build_pairs, compare_graph

PROP = dict(
    id='P15',
    title='The eojeol counter counts, filters, covers and converts exactly',
    statement=(
        'For every corpus, the eojeol counter holds each whitespace-separated word of at most the maximum length (after the optional preprocessing of its sentence) with its number of occurrences, provided that number reaches the minimum count; with checkpoint filtering on, words below the minimum are additionally forgotten each time another checkpoint number of sentences has been read. '
        'Removing covered eojeols deletes exactly those, and the coverage is the share of the total count (as built or loaded) they made up; lookups of absent eojeols give zero, and a coverage outside [0, 1] is rejected. '
        'Saving and loading restores the counts, and conversion to an L-R graph yields every cut within the length limits with the eojeol\'s count, skipping one-syllable eojeols exactly on request.'),
    quantifier=dict(over=['inputs', 'configurations', 'histories'], text='all corpora, parameters and operation sequences'),
    why_tests_cant='The counter is only run inside extractors on a sample corpus; none of its parameters or operations is asserted.',
    anchors=dict(files=['soynlp/utils/utils.py'], mechanism=[dict(name='EojeolCounter', where='soynlp/utils/utils.py')],
                 observe_at=['items', 'get_eojeol_count', 'coverage', 'to_lrgraph', 'save', 'load'], hook_needed=None))

CHECK = dict(
    technique='bounded-exhaustive enumeration of corpora x parameters and of operation sequences on the real counter against a counting model',
    level_note='All corpora of up to the stated number of sentences over a sentence menu, all parameter combinations of the menu, all operation sequences up to the stated depth.',
    assumptions=['coverage is only asked for counters with a positive total'])

SENTS = ['a', 'ab a', 'b  ab', 'abc\tabcd a', '', 'AB a\n']


def count(sents, min_count, max_length, checkpoint, pre):
    c = {}
    for i, s in enumerate(sents):
        if min_count > 1 and checkpoint > 0 and i > 0 and i % checkpoint == 0:
            c = {k: v for k, v in c.items() if v >= min_count}
        for w in pre(s).split():
            if len(w) <= max_length:
                c[w] = c.get(w, 0) + 1
    return {k: v for k, v in c.items() if v >= min_count}


def harnesses(tier):
    from soynlp.utils import EojeolCounter
    deep = tier == 'thorough'
    pres = {'none': None, 'lower': str.lower, 'drop': lambda s: s.replace('a', ' ')}
    n = 5 if deep else 4

    def compare(ec, want, what, rec):
        rec.equal(dict(ec.items()), want, what)
        rec.equal(len(ec), len(want), what + ': number of eojeols')
        for w in list(want) + ['zz', '']:
            rec.equal((ec[w], ec.get_eojeol_count(w)), (want.get(w, 0),) * 2, what + ': count of %r' % w)
        rec.equal((ec.num_of_unique_uncovered_eojeols, ec.num_of_uncovered_eojeols), (len(want), sum(want.values())), what + ': uncovered numbers')

    def run(case, rec):
        sents = [SENTS[i] for i in case]
        for mc in (1, 2, 3):
            for ml in (1, 2, 3, 15):
                for cp in (0, 1, 2, 3):
                    for pname in pres:
                        if pname != 'none' and (ml == 1 or cp == 3):
                            continue
                        p = pres[pname]
                        want = count(sents, mc, ml, cp, p or (lambda s: s))
                        rec.state((tuple(case), mc, ml, cp, pname))
                        ec = EojeolCounter(sents, min_count=mc, max_length=ml, filtering_checkpoint=cp, verbose=False, preprocess=p)
                        what = 'counter of %r (min_count=%d, max_length=%d, checkpoint=%d, preprocess=%s)' % (sents, mc, ml, cp, pname)
                        rec.equal(dict(ec.items()), want, what)
                        rec.outcome(len(want))
        compare(EojeolCounter(sents), count(sents, 1, 15, 0, lambda s: s), 'default counter of %r' % (sents,), rec)
        rec.trace()
        rec.sample(sents)

    bases = [['a ab b', 'a'], ['a a a', 'ab abc', 'b'], ['가나다 가나 가', '나 나']]
    words = ['a', 'ab', 'b', '가나', '없음']
    menu = [['cover', ['a']], ['cover', ['set', 'ab', 'b']], ['cover', ['dict', '가나', 'a']], ['cover', []], ['cover', ['없음', 'abc']], ['saveload'], ['setcov', 0.5], ['setcov', 1.5], ['setcov', -0.25], ['loadother']]

    def run_ops(case, rec):
        base, ops = case
        sents = bases[base]
        ec = EojeolCounter(sents)
        model = count(sents, 1, 15, 0, lambda s: s)
        total = sum(model.values())
        cov = 0.0
        for step, i in enumerate(ops):
            op = menu[i]
            what = 'counter of %r after %r' % (sents, [menu[j] for j in ops[:step + 1]])
            if op[0] == 'cover':
                arg = op[1]
                if arg and arg[0] == 'set':
                    arg = set(arg[1:])
                elif arg and arg[0] == 'dict':
                    arg = {k: 1 for k in arg[1:]}
                if total == 0:
                    continue
                ec.remove_covered_eojeols(arg)
                model = {k: v for k, v in model.items() if k not in arg}
                cov = 1 - sum(model.values()) / total
            elif op[0] == 'saveload':
                with tempfile.TemporaryDirectory() as tmp:
                    p = os.path.join(tmp, 'x', 'y', 'eojeols.txt')
                    ec.save(p)
                    if step % 2 == 0:
                        ec = EojeolCounter()
                    ec.load(p)
                total, cov = sum(model.values()), 0.0
            elif op[0] == 'loadother':
                with tempfile.TemporaryDirectory() as tmp:
                    p = os.path.join(tmp, 'eojeols.txt')
                    other = EojeolCounter(['b b 새 것'])
                    other.save(p)
                    ec.load(p)
                model = {'b': 2, '새': 1, '것': 1}
                total, cov = 4, 0.0
            else:
                try:
                    ec.coverage = op[1]
                    rec.check(0 <= op[1] <= 1, '%s: coverage %r accepted' % (what, op[1]))
                    cov = op[1]
                except ValueError:
                    rec.check(not 0 <= op[1] <= 1, '%s: coverage %r rejected' % (what, op[1]))
            compare(ec, model, what, rec)
            rec.close(ec.coverage, cov, what + ': coverage')
            for mc in (0, 2, 3):
                rec.equal(ec.get_uncovered_eojeols(mc), {k: v for k, v in model.items() if v >= mc}, what + ': uncovered with minimum %d' % mc)
            rec.equal(ec.get_uncovered_eojeols(), model, what + ': uncovered')
            rec.state((base, tuple(sorted(model.items())), round(cov, 9)))
        rec.trace()
        rec.outcome(len(model))
        rec.sample([menu[j] for j in ops])

    depth = 4 if deep else 3

    def expand(root):
        for rest in itertools.product(range(len(menu)), repeat=depth - 2):
            yield [root[0], root[1] + list(rest)]

    texts = list(gen.words_upto('ab ', 6 if deep else 5)) + ['가나다라마바사아자차카 는 가나다라마바사아자차카타파하 가 가']

    def run_graph(case, rec):
        lo, hi = case
        for t in texts[lo:hi]:
            sents = [t, 'ab a']
            ec = EojeolCounter(sents)
            before = dict(ec.items())
            for lm, rm in ((2, 1), (3, 2), (10, 9), (12, 3)):
                for ign in (False, True):
                    words = [w for s in sents for w in s.split() if not (ign and len(w) == 1)]
                    rec.state((t, lm, rm, ign))
                    kw = {} if (lm, rm, ign) == (10, 9, False) else dict(l_max_length=lm, r_max_length=rm, ignore_one_syllable=ign)
                    g = ec.to_lrgraph(**kw)
                    what = 'graph of the counter of %r, limits (%d, %d), ignore_one_syllable=%s' % (sents, lm, rm, ign)
                    universe = [(w[:i], w[i:]) for s in sents for w in s.split() for i in range(1, len(w) + 1)]
                    compare_graph(g, build_pairs(words, lm, rm), what, rec, universe)
                    g.remove_eojeol('ab', 1)
                    g.add_eojeol('zz', 3)
            rec.equal(dict(ec.items()), before, 'counter after using the graph')
        rec.trace()
        rec.outcome('ok')

    odd = ['A', '.', 'a.', '\u200b', '\ufeffa', 'a\u0301', '1', '-1', '🙂', 'ㄱ', '"', '\x00', 'é', '가' * 15, '가' * 16, '나' * 14 + 'x']

    def run_scale(case, rec):
        n, blank, verbose = case
        words = odd + ['w%d' % (i * i % 3001) for i in range(60)]
        sents = []
        for i in range(n):
            sents.append(blank.join(words[(i * k + k) % len(words)] if k % 3 else 'e%d' % (i // (k + 1)) for k in range(1 + i % 6)) + ['', '\n', '  '][i % 3])
        for mc, ml, cp in ((1, 15, 0), (2, 15, 1000), (3, 20, 0), (2, 4, 777), (100, 15, 50000), (2, 15, 10 ** 6)):
            want = count(sents, mc, ml, cp, lambda s: s)
            rec.state((n, blank, mc, ml, cp))
            ec = EojeolCounter(sents, min_count=mc, max_length=ml, filtering_checkpoint=cp, verbose=verbose)
            what = 'counter of %d sentences (min_count=%d, max_length=%d, checkpoint=%d, verbose=%s)' % (n, mc, ml, cp, verbose)
            rec.step(len(want))
            rec.check(dict(ec.items()) == want, what + ': %r', [(k, ec[k], want.get(k)) for k in set(want) | set(dict(ec.items())) if ec[k] != want.get(k, 0)][:5])
            rec.check(len(ec) == len(want) and ec.num_of_uncovered_eojeols == sum(want.values()), what + ': totals')
            if cp == 0:
                with tempfile.TemporaryDirectory() as tmp:
                    ec.save(os.path.join(tmp, 'e'))
                    other = EojeolCounter()
                    other.load(os.path.join(tmp, 'e'))
                rec.check(dict(other.items()) == want, what + ': saved and loaded')
                g = other.to_lrgraph()
                pairs = {}
                for w, c in want.items():
                    for e in range(1, min(len(w), 10) + 1):
                        if len(w) - e <= 9:
                            pairs.setdefault(w[:e], {})[w[e:]] = c
                for l in pairs:
                    rec.check(dict(g.get_r(l, -1)) == pairs[l], what + ': R parts of %r in its graph', l)
                some = sorted(want)[::3]
                if sum(want.values()):
                    for x in (some[:len(some) // 2], set(some), {w: 1 for w in some}):
                        ec.remove_covered_eojeols(x)
                        left = {k: v for k, v in want.items() if k not in (some[:len(some) // 2] if x is not None and len(x) < len(some) else some)}
                        rec.check(dict(ec.items()) == left, what + ': after removing %d eojeols', len(x))
                        rec.close(ec.coverage, 1 - sum(left.values()) / sum(want.values()), what + ': coverage')
            rec.outcome(len(want))
        # far more covered eojeols than counted ones, and hardly any
        few = ['a b', 'c a']
        for cover in (['a'] + ['x%d' % i for i in range(n)], {'x%d' % i: 1 for i in range(n)}, set(words) | {'b', 'c', 'a'}, ['x%d' % i for i in range(n)] + ['c'], [], ()):
            ec = EojeolCounter(few)
            ec.remove_covered_eojeols(cover)
            left = {k: c for k, c in (('a', 2), ('b', 1), ('c', 1)) if k not in cover}
            rec.state((n, len(cover)))
            rec.check(dict(ec.items()) == left and dict(ec.get_uncovered_eojeols(2)) == {k: c for k, c in left.items() if c >= 2}, 'three eojeols after removing %d: %r', len(cover), dict(ec.items()))
            rec.close(ec.coverage, 1 - sum(left.values()) / 4, 'coverage of three eojeols after removing %d' % len(cover))
        rec.trace()

    return [
        Harness('scale', run_scale, [[n, b, v] for n, b in ((300, ' '), (5000, '\t'), (110000 if deep else 20000, ' '), (20000, '\u3000 ')) for v in (False, True)], chunk=1, about='thousands of sentences, unusual characters, checkpoints, progress output on and off', bound='110000 sentences' if deep else '20000 sentences'),
        Harness('corpora', run, [list(t) for t in gen.tuples_upto(range(len(SENTS)), n, lo=1)], chunk=8, about='all corpora over 6 sentences x 4 parameters', bound='%d sentences' % n),
        Harness('histories', run_ops, [[b, list(t)] for b in range(3) for t in itertools.product(range(len(menu)), repeat=2)], expand=expand, chunk=8, about='all operation sequences over 10 operations from 3 corpora', bound='depth %d' % depth),
        Harness('graphs', run_graph, gen.blocks(len(texts), 8), about='all texts x length limits x one-syllable option', bound='length <= %d' % (6 if deep else 5)),
    ]
