"""P14: the L-R graph as a state machine."""
import itertools
import os
import tempfile
from collections import defaultdict

from mc import gen
from mc.core import Harness

PROP = dict(
    id='P14',
    title='The L-R graph counts exactly, in both directions, under all histories',
    statement=(
        'A graph built from sentences holds, for every way of cutting a word occurrence into a nonempty L part and an R part (possibly empty) within the length limits, the number of occurrences; a graph built from nested mappings holds their counts without ever changing those mappings. '
        'After every sequence of adding and removing L-R pairs and eojeols, the R parts listed for an L and the L parts listed for a nonempty R give the same positive counts, added minus removed and never below zero, so removing what was added restores the graph; listings are sorted by count, truncated to the requested number, and complete when it is not positive. '
        'Reset returns to the graph as first built or loaded (and does nothing after freezing), saving writes that original graph so that loading restores it exactly, a compact copy of the original is independent of it, and the derived eojeol counter gives each eojeol its count.'),
    quantifier=dict(over=['histories', 'inputs', 'configurations'], text='all operation sequences, sentences and length limits'),
    why_tests_cant='No test touches the graph class directly; extractors use it only through a single pass over a sample corpus.',
    anchors=dict(files=['soynlp/utils/utils.py'],
                 mechanism=[dict(name='LRGraph.add_* / remove_* / reset_lrgraph / save / load', where='soynlp/utils/utils.py')],
                 state=[dict(name='L to R and R to L counts', meaning='the same pairs indexed both ways', where='soynlp/utils/utils.py'),
                        dict(name='original graph', meaning='what reset and save use', where='soynlp/utils/utils.py')],
                 observe_at=['get_r', 'get_l', 'to_EojeolCounter', 'save', 'load'], hook_needed=None))

CHECK = dict(
    technique='explicit-state search over all operation sequences on the real graph, each state compared with a multiset model; exhaustive enumeration of sentences x limits for construction',
    level_note='All operation sequences up to the stated depth over a 16-operation menu whose pairs collide on L and on R, from five initial graphs; all texts up to the stated length with all small length limits for construction. Order among equal counts is unspecified.',
    assumptions=['counts are positive integers; the eojeol counter is compared only when all cuts of an eojeol carry the same count'])


SYLLABLES = [chr(0xAC00 + 28 * i) for i in range(60)]


def build_pairs(sents, lmax, rmax):
    pairs = defaultdict(int)
    for s in sents:
        for w in s.split():
            for e in range(1, min(len(w), lmax) + 1):
                if len(w) - e <= rmax:
                    pairs[w[:e], w[e:]] += 1
    return dict(pairs)


def nested(pairs):
    out = {}
    for (l, r), c in pairs.items():
        out.setdefault(l, {})[r] = c
    return out


def compare_graph(g, pairs, what, rec, extra=()):
    ls = {l for l, _ in pairs} | {l for l, _ in extra}
    rs = {r for _, r in pairs} | {r for _, r in extra}
    for l in sorted(ls):
        want = {r: c for (l2, r), c in pairs.items() if l2 == l}
        got = g.get_r(l, -1)
        rec.equal(dict(got), want, '%s: R parts of %r' % (what, l))
        rec.check(len(got) == len(want), '%s: duplicate R parts of %r: %r' % (what, l, got))
        ranked(g.get_r, l, want, got, '%s: R parts of %r' % (what, l), rec)
    for r in sorted(rs):
        if not r:
            continue
        want = {l: c for (l, r2), c in pairs.items() if r2 == r}
        got = g.get_l(r, -1)
        rec.equal(dict(got), want, '%s: L parts of %r' % (what, r))
        rec.check(len(got) == len(want), '%s: duplicate L parts of %r: %r' % (what, r, got))
        ranked(g.get_l, r, want, got, '%s: L parts of %r' % (what, r), rec)


def ranked(query, key, want, full, what, rec):
    counts = [c for _, c in full]
    rec.check(counts == sorted(counts, reverse=True), '%s are not sorted by count: %r' % (what, full))
    for k in (1, 2):
        got = query(key, k)
        rec.step()
        rec.check(len(got) == min(k, len(want)) and all(want.get(x) == c for x, c in got) and [c for _, c in got] == counts[:k],
                  '%s, top %d: %r of %r' % (what, k, got, full))
    got = query(key)
    rec.check(len(got) == min(10, len(want)) and [c for _, c in got] == counts[:10], '%s by default: %r' % (what, got))


def harnesses(tier):
    from soynlp.utils import LRGraph, EojeolCounter
    deep = tier == 'thorough'

    initials = [
        ('empty', lambda: LRGraph(), {}),
        ('nested', lambda: LRGraph(lrgraph={'a': {'': 1, 'b': 2}, 'ab': {'': 2}}), {('a', ''): 1, ('a', 'b'): 2, ('ab', ''): 2}),
        ('sents', lambda: LRGraph(sents=['ab ab', 'a b']), {('a', 'b'): 2, ('ab', ''): 2, ('a', ''): 1, ('b', ''): 1}),
        ('counter', lambda: EojeolCounter(['ab aab', 'aab'], min_count=1).to_lrgraph(), {('a', 'b'): 1, ('ab', ''): 1, ('a', 'ab'): 2, ('aa', 'b'): 2, ('aab', ''): 2}),
        ('defaultdict', lambda: LRGraph(lrgraph=defaultdict(lambda: defaultdict(int), {'a': defaultdict(int, {'b': 3})})), {('a', 'b'): 3}),
    ]
    menu = [['addp', 'a', 'b', 1], ['addp', 'b', 'b', 2], ['addp', 'a', '', 1], ['addp', 'c', 'd', 3], ['rmp', 'a', 'b', 1], ['rmp', 'b', 'b', 5],
            ['rmp', 'a', '', 1], ['rmp', 'zz', 'b', 1], ['adde', 'ab', 1], ['adde', 'aab', 2], ['rme', 'ab', 1], ['rme', 'aab', 1], ['reset'], ['freeze'], ['saveload'], ['copy']]
    universe = [(l, r) for l in ('a', 'b', 'ab', 'aa', 'aab', 'c', 'zz') for r in ('b', 'ab', 'd', '')]

    def add(p, l, r, c):
        p[l, r] = p.get((l, r), 0) + c

    def rm(p, l, r, c):
        if (l, r) in p:
            p[l, r] -= c
            if p[l, r] <= 0:
                del p[l, r]

    def run(case, rec):
        init, ops = case
        name, build, pairs = initials[init]
        g = build()
        pairs, origin = dict(pairs), dict(pairs)
        copies = []
        for step, i in enumerate(ops):
            op = menu[i]
            what = 'graph %s after %r' % (name, [menu[j] for j in ops[:step + 1]])
            if op[0] == 'addp':
                g.add_lr_pair(op[1], op[2], op[3]) if op[3] != 1 else g.add_lr_pair(op[1], op[2])
                add(pairs, op[1], op[2], op[3])
            elif op[0] == 'rmp':
                g.remove_lr_pair(op[1], op[2], op[3]) if op[3] != 1 else g.remove_lr_pair(op[1], op[2])
                rm(pairs, op[1], op[2], op[3])
            elif op[0] in ('adde', 'rme'):
                (g.add_eojeol if op[0] == 'adde' else g.remove_eojeol)(op[1], op[2])
                for k in range(1, len(op[1]) + 1):
                    (add if op[0] == 'adde' else rm)(pairs, op[1][:k], op[1][k:], op[2])
            elif op[0] == 'reset':
                g.reset_lrgraph()
                if origin is not None:
                    pairs = dict(origin)
            elif op[0] == 'freeze':
                g.freeze()
                origin = None
            elif op[0] == 'saveload':
                if origin is None:
                    continue
                with tempfile.TemporaryDirectory() as tmp:
                    p = os.path.join(tmp, 'sub', 'graph.txt')
                    g.save(p)
                    compare_graph(g, pairs, what + ' (the saved graph itself)', rec)
                    if step % 2:
                        g = LRGraph(lrgraph={'old': {'x': 7, '': 1}})
                    g.load(p)
                pairs = dict(origin)
            elif op[0] == 'copy':
                if origin is None:
                    continue
                c = g.copy_compatified_lrgraph_origin()
                compare_graph(c, origin, what + ' (the copy)', rec)
                copies.append((c, dict(origin)))
                c2 = g.copy_compatified_lrgraph_origin()
                c2.add_lr_pair('a', 'b', 5)
                c2.remove_eojeol('aab', 1)
            compare_graph(g, pairs, what, rec, universe)
            rec.state((init, tuple(sorted(pairs.items())), None if origin is None else tuple(sorted(origin.items()))))
        for c, want in copies:
            compare_graph(c, want, 'copy taken during %r' % ([menu[j] for j in ops],), rec)
        if origin is not None:
            g.reset_lrgraph()
            compare_graph(g, origin, 'graph %s reset after %r' % (name, [menu[j] for j in ops]), rec, universe)
        rec.trace()
        rec.outcome(len(pairs))
        rec.sample([name] + [menu[j] for j in ops])

    depth = 4 if deep else 3
    k = len(menu)
    roots = [[i, list(t)] for i in range(len(initials)) for t in itertools.product(range(k), repeat=2)]

    def expand(root):
        i, t = root
        for rest in itertools.product(range(k), repeat=depth - 2):
            yield [i, t + list(rest)]

    limits = [(2, 1), (2, 2), (3, 1), (10, 9), (4, 2)]
    texts = list(gen.words_upto('ab ', 7 if deep else 6))

    def run_build(case, rec):
        lo, hi = case
        for t in texts[lo:hi]:
            for sents in ([t], [t, 'ba'], [t, t]):
                for lm, rm_ in limits:
                    what = 'graph from %r with limits (%d, %d)' % (sents, lm, rm_)
                    pairs = build_pairs(sents, lm, rm_)
                    rec.state((tuple(sents), lm, rm_))
                    g = LRGraph(sents=sents, l_max_length=lm, r_max_length=rm_)
                    compare_graph(g, pairs, what, rec)
                    src = nested(pairs)
                    keep = nested(pairs)
                    h = LRGraph(lrgraph=src, l_max_length=lm, r_max_length=rm_)
                    compare_graph(h, pairs, 'graph from nested dict of ' + what, rec)
                    if (lm, rm_) == (10, 9):
                        words = [w for s in sents for w in s.split()]
                        want = {w: words.count(w) for w in words}
                        for reset in (False, True):
                            ec = g.to_EojeolCounter(reset_lrgraph=reset)
                            rec.equal(dict(ec.items()), want, 'eojeol counter of ' + what)
                            rec.equal(ec.num_of_uncovered_eojeols, len(words), 'eojeol counter total of ' + what)
                    for w in set(t.split()):
                        h.remove_eojeol(w, 1)
                        h.add_lr_pair(w, 'new', 1)
                    rec.equal(src, keep, 'nested dict given to ' + what)
                    src.setdefault('a', {})['intruder'] = 1
                    rec.check('intruder' not in dict(h.get_r('a', -1)), 'later change of the given dict reaches ' + what)
                    h.reset_lrgraph()
                    compare_graph(h, pairs, 'reset of ' + what, rec)
        rec.trace()
        rec.outcome('ok')
        rec.sample(case)

    def run_inverse(case, rec):
        # removing what was added restores the graph, from any of the initial graphs
        init, words, order = case
        name, build, pairs = initials[init]
        g = build()
        for w, c in words:
            g.add_eojeol(w, c)
        full = dict(pairs)
        for w, c in words:
            for i in range(1, len(w) + 1):
                add(full, w[:i], w[i:], c)
        compare_graph(g, full, 'graph %s plus %r' % (name, words), rec)
        for i in order:
            if i < len(words):
                g.remove_eojeol(*words[i])
        compare_graph(g, pairs, 'graph %s plus and minus %r' % (name, words), rec, universe)
        rec.state((init, tuple(map(tuple, words)), tuple(order)))
        rec.trace()
        rec.outcome(len(full))

    wl = [['ab', 1], ['aab', 2], ['b', 3], ['abab', 1], ['가나다라마바사아자차카타파', 4]]

    def run_misc(case, rec):
        rec.state(case)
        if case == 'both':
            try:
                LRGraph(lrgraph={'a': {'': 1}}, sents=['a'])
                rec.fail('both a graph and sentences are accepted')
            except ValueError:
                pass
        elif case == 'wrong':
            for bad in ({'a': 3}, 5, {'a': [1]}):
                try:
                    LRGraph(lrgraph=bad)
                    rec.fail('%r is accepted as a graph' % (bad,))
                except ValueError:
                    pass
        elif case == 'pairs':
            g = LRGraph(lrgraph=[('a', {'b': 2, '': 1}), ('c', {'b': 1})])
            compare_graph(g, {('a', 'b'): 2, ('a', ''): 1, ('c', 'b'): 1}, 'graph from a list of pairs', rec)
        elif case == 'empty':
            g = LRGraph()
            g.add_eojeol('ab', 2)
            compare_graph(g, {('a', 'b'): 2, ('ab', ''): 2}, 'empty graph plus ab', rec)
            g.reset_lrgraph()
            compare_graph(g, {}, 'empty graph reset', rec, universe)
        rec.step()
        rec.trace()
        rec.outcome(case)

    def run_big(n, rec):
        words = ['%s%s' % (a, b) for a in '가나다라마바사아자차카타' for b in ('는', '를', '에서', '으로부터', 'ab')][:n]
        sents = [' '.join(words[i:i + 1] * (1 + i % 13)) for i in range(len(words))]
        pairs = build_pairs(sents, 10, 9)
        g = LRGraph(sents=sents)
        compare_graph(g, pairs, 'graph of %d eojeols' % n, rec)
        with tempfile.TemporaryDirectory() as tmp:
            p = os.path.join(tmp, 'g')
            g.save(p)
            h = LRGraph()
            h.load(p)
        compare_graph(h, pairs, 'loaded graph of %d eojeols' % n, rec)
        rec.equal(dict(h.to_EojeolCounter().items()), {w: 1 + i % 13 for i, w in enumerate(words)}, 'eojeol counter of the loaded graph')
        rec.state(n)
        rec.trace()
        rec.outcome(len(pairs))

    def run_wide(case, rec):
        # one part with very many counterparts; the listings are complete and in order all the same
        n, side = case
        parts = ['%s%s' % (a, b) for a in SYLLABLES for b in SYLLABLES][:n]
        pairs = {((p, 'R') if side == 'L' else ('L', p)): 1 + (i * 7) % n for i, p in enumerate(parts)}
        pairs['L', ''] = 2
        g = LRGraph(lrgraph=nested(pairs)) if n % 2 else LRGraph()
        if not n % 2:
            for (l, r), c in pairs.items():
                g.add_lr_pair(l, r, c)

        def whole(g, pairs, what):
            query, key = (g.get_l, 'R') if side == 'L' else (g.get_r, 'L')
            want = {(l if side == 'L' else r): c for (l, r), c in pairs.items() if (r == 'R' if side == 'L' else l == 'L')}
            for k in (-1, 0, n - 1, n + 5, 1000, 10):
                got = query(key, k)
                m = min(k, len(want)) if k > 0 else len(want)
                rec.step()
                rec.check(len(got) == m and len(dict(got)) == m and all(want.get(x) == c for x, c in got) and [c for _, c in got] == sorted(want.values(), reverse=True)[:m],
                          '%s: %d of the %d parts listed with topk %d, the first %r', what, len(got), len(want), k, got[:3])
        whole(g, pairs, '%d %s parts' % (n, side))
        with tempfile.TemporaryDirectory() as tmp:
            if n % 2:
                g.save(os.path.join(tmp, 'g'))
                h = LRGraph()
                h.load(os.path.join(tmp, 'g'))
                whole(h, pairs, '%d %s parts, saved and loaded' % (n, side))
        for p in parts[::3]:
            pair = (p, 'R') if side == 'L' else ('L', p)
            g.remove_lr_pair(pair[0], pair[1], n)
            del pairs[pair]
        whole(g, pairs, '%d %s parts less a third' % (n, side))
        rec.state(case)
        rec.trace()
        rec.outcome(len(pairs))

    odd = ['a b', ' a', 'a ', '\t', ' ', 'A', '.', 'a.', '!a', '\u200b', '\ufeffa', 'a\u0301', '1', '-', '🙂', 'ㄱ', '\\n', '"', "'", '\x00', 'é', 'e\u0301', '가\u3000나', '\n', 'a\nb', '\r', '\x1f']

    def run_odd(case, rec):
        # parts of unusual characters: pairs one by one, in both roles; through a file where the words have no blanks
        i, mode = case
        g = LRGraph() if mode == 'empty' else LRGraph(lrgraph={odd[i]: {'': 1, odd[i - 1]: 2}})
        pairs = {} if mode == 'empty' else {(odd[i], ''): 1, (odd[i], odd[i - 1]): 2}
        origin = dict(pairs)
        extra = [(x, y) for x in odd for y in odd[:3]] + [('a', 'a'), ('a', 'b'), ('b', '')]
        for j, r in enumerate(odd):
            g.add_lr_pair(odd[i], r, 1 + j)
            add(pairs, odd[i], r, 1 + j)
            g.add_lr_pair(r, odd[i])
            add(pairs, r, odd[i], 1)
            rec.state((i, mode, j))
        compare_graph(g, pairs, 'graph of pairs with %r' % odd[i], rec, extra)
        for j, r in enumerate(odd[::2]):
            g.remove_lr_pair(odd[i], r, 2 + j)
            rm(pairs, odd[i], r, 2 + j)
            g.add_eojeol(r + odd[i], 2)
            for k in range(1, len(r + odd[i]) + 1):
                add(pairs, (r + odd[i])[:k], (r + odd[i])[k:], 2)
        compare_graph(g, pairs, 'graph of pairs with %r, changed' % odd[i], rec, extra)
        g.reset_lrgraph()
        compare_graph(g, origin, 'graph of pairs with %r, reset' % odd[i], rec, extra)
        words = [x for x in odd if len(x.split()) == 1 and x.split()[0] == x]
        sents = [' '.join(w + odd[i].strip() for w in words), '\t'.join(words) + '\u3000' + odd[i]]
        pairs = build_pairs(sents, 10, 9)
        g = LRGraph(sents=sents)
        compare_graph(g, pairs, 'graph from %r' % sents, rec)
        if all(len(w.split()) == 1 for s in sents for w in s.split(' ')):
            with tempfile.TemporaryDirectory() as tmp:
                g.save(os.path.join(tmp, 'g'))
                h = LRGraph()
                h.load(os.path.join(tmp, 'g'))
            compare_graph(h, pairs, 'graph from %r, saved and loaded' % sents, rec)
        rec.trace()
        rec.outcome(len(pairs))

    def run_corpus(case, rec):
        # many sentences, many different words, long words, large counts
        n, kind = case
        seq = ''.join(gen.debruijn('abcd', 5))
        if kind == 'words':
            words = [seq[i % 1000:i % 1000 + 1 + i % 12] for i in range(n)]
        elif kind == 'distinct':
            words = [SYLLABLES[i % 60] + SYLLABLES[i // 60 % 60] + SYLLABLES[i // 3600] + '는을도'[i % 3] for i in range(n)]
        else:
            words = ['abab'] * n + ['ab']
        sents = [' '.join(words[i:i + 7]) for i in range(0, n, 7)] if kind != 'one' else [' '.join(words)]
        pairs = build_pairs(sents, 10, 9)
        g = LRGraph(sents=sents)
        grouped, back = {}, {}
        for (l, r), c in pairs.items():
            grouped.setdefault(l, {})[r] = c
            back.setdefault(r, {})[l] = c

        def whole(g, what):
            for l, want in grouped.items():
                rec.step()
                rec.check(dict(g.get_r(l, -1)) == want, '%s: R parts of %r', what, l)
            for r, want in back.items():
                if r:
                    rec.step()
                    rec.check(dict(g.get_l(r, -1)) == want, '%s: L parts of %r', what, r)
        rec.state(tuple(case))
        whole(g, 'graph of %r' % (case,))
        with tempfile.TemporaryDirectory() as tmp:
            g.save(os.path.join(tmp, 'g'))
            h = LRGraph()
            h.load(os.path.join(tmp, 'g'))
        whole(h, 'graph of %r, saved and loaded' % (case,))
        g.add_eojeol('abab', 70000)
        g.remove_eojeol('abab', 69999)
        g.remove_eojeol('abab', 1)
        whole(g, 'graph of %r, an eojeol added and removed' % (case,))
        count = {}
        for w in words:
            if len(w) <= 10:
                count[w] = count.get(w, 0) + 1
        if all(len(w) <= 10 for w in words):
            rec.check(dict(h.to_EojeolCounter().items()) == count, 'eojeol counter of the graph of %r', case)
        rec.trace()
        rec.outcome(len(pairs))

    def run_long(case, rec):
        # eojeols shorter and longer than the graph's length limits, added and removed one by one: add and remove split at every position
        n, (lm, rm_), source = case
        seq = ''.join(gen.debruijn('abc', 4))
        words = [seq[:n], seq[5:5 + n], 'a' * n, seq[:max(1, n - 3)]]
        sents = {'none': [], 'same': [' '.join(words)], 'other': ['xyz xy', 'a ab ' + seq[:40]]}[source]
        g = LRGraph(sents=sents, l_max_length=lm, r_max_length=rm_) if sents else LRGraph(l_max_length=lm, r_max_length=rm_)
        pairs = build_pairs(sents, lm, rm_)
        origin = dict(pairs)
        extra = [(w[:i], w[i:]) for w in words for i in range(1, len(w) + 1)]

        def every(f, w, c):
            for i in range(1, len(w) + 1):
                f(pairs, w[:i], w[i:], c)
        for step, (w, c) in enumerate([(words[0], 3), (words[1], 1), (words[2], 2), (words[3], 5), (words[0], -1), (words[2], -2), (words[3], -4), (words[1], -7), (words[0], -2), (words[3], -1)]):
            if c > 0:
                g.add_eojeol(w, c)
                every(add, w, c)
            else:
                g.remove_eojeol(w, -c)
                every(rm, w, -c)
            rec.state((n, lm, rm_, source, step))
            compare_graph(g, pairs, 'graph with limits %d and %d after %s %r x %d' % (lm, rm_, 'adding' if c > 0 else 'removing', w, abs(c)), rec, extra)
        if sents:
            g.add_eojeol(words[0], 2)
            every(add, words[0], 2)
            after = dict(pairs)
            g.to_EojeolCounter()
            compare_graph(g, after, 'graph with limits %d and %d after its eojeol counter was taken' % (lm, rm_), rec, extra)
            g.reset_lrgraph()
            compare_graph(g, origin, 'graph with limits %d and %d, reset' % (lm, rm_), rec, extra)
        rec.trace()
        rec.outcome(len(pairs))

    perms = [list(p) for p in itertools.permutations(range(3))]
    return [
        Harness('long_eojeols', run_long, [[n, list(lim), s] for n in (1, 2, 3, 9, 10, 11, 12, 19, 20, 25, 40) for lim in ((10, 9), (2, 1), (3, 5), (30, 2)) for s in ('none', 'same', 'other')], chunk=4, about='eojeols up to and beyond the length limits of the graph, added and removed', bound='40 characters x 4 limits x 10 steps'),
        Harness('histories', run, roots, expand=expand, chunk=8, about='all operation sequences over 16 operations from 5 initial graphs', bound='depth %d' % depth),
        Harness('construction', run_build, gen.blocks(len(texts), 16), about='all texts over {a,b,blank} x 5 length-limit pairs: build, counter, independence of the source, reset', bound='length <= %d' % (7 if deep else 6)),
        Harness('add_remove_inverse', run_inverse, [[i, list(ws), p] for i in range(len(initials)) for ws in itertools.product(wl, repeat=3) for p in perms], chunk=64, about='adding three eojeols and removing them in every order', bound='3 eojeols'),
        Harness('argument_forms', run_misc, ['both', 'wrong', 'pairs', 'empty'], about='constructor argument forms', bound='4'),
        Harness('unusual_parts', run_odd, [[i, m] for i in range(len(odd)) for m in ('empty', 'given')], chunk=2, about='parts with blanks, line breaks and other unusual characters, in both roles', bound='%d x %d pairs' % (len(odd), len(odd))),
        Harness('corpora', run_corpus, [[n, k] for n in (300, 5000, 20000) for k in ('words', 'distinct', 'one')], chunk=1, about='many sentences, many words, large counts; save and load', bound='20000 words'),
        Harness('wide', run_wide, [[n, s] for n in (99, 257, 1025, 1300, 3001) for s in 'LR'], chunk=1, about='one part with very many counterparts: complete listings, save and load, removal', bound='3001 parts'),
        Harness('larger', run_big, [1, 7, 20, 60], about='larger graphs through save and load', bound='60 eojeols'),
    ]
