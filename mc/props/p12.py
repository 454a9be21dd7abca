"""P12: dictionary-based part-of-speech tagging."""
import itertools

from mc import gen
from mc.core import Harness

PROP = dict(
    id='P12',
    title='The tagger partitions every word into dictionary words and unknown rests',
    statement=(
        'For every dictionary and text, the L-R tagger with the unknown-word post-processor returns, per whitespace-separated word, nonempty pieces that concatenate to exactly that word (also when nothing matches); every piece with a tag is a dictionary word of that tag, each R piece directly follows an L piece whose tag allows its tag, L pieces have at least two characters, and all other pieces are tagged as unknown. '
        'The matcher offers every such L or L+R analysis inside the word and nothing else, and the tagger selects greedily by the evaluator\'s score: every offered analysis that was not selected overlaps a selected one with at least its score, where user preferences add their value for the preferred L and R words. '
        'The whole-word matcher with its evaluator likewise returns a partition that is the whole word as unknown, or known words in an allowed single, L+R, or same-tag compound form, (cutting off the shortest known noun, or adverb, again and again), none of them scoring higher, and as unknown only if it is no single known word. '
        'Scores are the sums of the weights of the features that hold, times their number or length: noun L, L and R both known, adjective L, lengths of L and R, L of one character; and for whole words the number of nouns, number of words, having a noun, unknown words, only (several) adverbs, only (several) nouns, being one noun + particle, being one noun.'),
    quantifier=dict(over=['inputs', 'configurations'], text='all texts, dictionaries, templates and preferences'),
    why_tests_cant='The part-of-speech test asserts one sentence with one dictionary; unmatched words, overlapping candidates and ties are not reached.',
    anchors=dict(files=['soynlp/postagger/_tagger.py', 'soynlp/postagger/_template.py', 'soynlp/postagger/_evaluator.py'],
                 mechanism=[dict(name='LRTemplateMatcher / EojeolTemplateMatcher', where='soynlp/postagger/_template.py'),
                            dict(name='LREvaluator / SimpleEojeolEvaluator', where='soynlp/postagger/_evaluator.py'),
                            dict(name='SimpleTagger.tag, UnknowLRPostprocessor', where='soynlp/postagger/_tagger.py')],
                 observe_at=['SimpleTagger.tag', 'LRTemplateMatcher.generate'], hook_needed=None))

CHECK = dict(
    technique='bounded-exhaustive enumeration of dictionaries x texts on the real tagger against a candidate-set and greedy-selection model',
    level_note='Every subset of an 11-entry tagged word menu as dictionary, all words over a small alphabet up to the stated length, 3 template configurations and preference tables; longer texts through a periodic family. Which of several equally scored analyses wins is not specified.',
    assumptions=['dictionary words are nonempty'])

TAGS = ('Noun', 'Verb', 'Adjective', 'Adverb', 'Exclamation')
TEMPL = {'Noun': ('Josa', 'Verb', 'Adjective')}


def reference_candidates(t, pos, ltags, templates):
    out = set()
    n = len(t)
    for b in range(n):
        for m in range(b + 2, n + 1):
            for lt in ltags:
                if t[b:m] not in pos.get(lt, ()):
                    continue
                out.add((t[b:m], lt, '', None, b, m, m))
                for e in range(m + 1, n + 1):
                    for rt in templates.get(lt, ()):
                        if t[m:e] in pos.get(rt, ()):
                            out.add((t[b:m], lt, t[m:e], rt, b, m, e))
    return out


def harnesses(tier):
    from soynlp.postagger import (Dictionary, LRTemplateMatcher, LREvaluator, SimpleTagger, UnknowLRPostprocessor,
                                  EojeolTemplateMatcher, SimpleEojeolEvaluator)
    deep = tier == 'thorough'

    def check_word(tagger, gene, ev, pos, ltags, templates, w, got, rec, what):
        rec.check(all(p[0] for p in got), '%s: empty piece in %r' % (what, got))
        rec.equal(''.join(p[0] for p in got), w, '%s: pieces joined' % what)
        want = reference_candidates(w, pos, ltags, templates)
        cands = list(gene.generate(w))
        rec.equal(sorted(map(repr, {tuple(c) for c in cands})), sorted(map(repr, want)), '%s: offered analyses' % what)
        # locate the tagged pieces
        sel, off, i = [], 0, 0
        pieces = []
        for p, tag in got:
            pieces.append((p, tag, off, off + len(p)))
            off += len(p)
        # parse the tagged pieces into L or L+R analyses (maximal munch is ambiguous, so search)
        def parse(i):
            if i == len(pieces):
                return [[]]
            p, tag, b, e = pieces[i]
            if tag is None:
                if i + 1 < len(pieces) and pieces[i + 1][1] is None:
                    return []          # a rest must be maximal
                return parse(i + 1)
            outs = []
            if (p, tag, '', None, b, e, e) in want:
                outs += [[(p, tag, '', None, b, e, e)] + x for x in parse(i + 1)]
            if i + 1 < len(pieces):
                q, qt, b2, e2 = pieces[i + 1]
                if qt is not None and (p, tag, q, qt, b, e, e2) in want:
                    outs += [[(p, tag, q, qt, b, e, e2)] + x for x in parse(i + 2)]
            return outs
        readings = parse(0)
        rec.check(readings, '%s: %r is not made of offered analyses and unknown rests' % (what, got))
        score = {tuple(c): ev.evaluate(c) for c in cands}
        ok = False
        for sel in readings:
            if all(c in sel or any(s[4] < c[6] and c[4] < s[6] and score[s] >= score[c] - 1e-9 for s in sel) for c in want):
                ok = True
                break
        rec.step()
        rec.check(ok, '%s: %r is not a greedy selection' % (what, got))
        rec.outcome((len(want), len(got)))

    entries = [('Noun', 'ab'), ('Noun', 'aba'), ('Noun', 'ba'), ('Noun', 'bbab'), ('Verb', 'ab'), ('Verb', 'bab'), ('Josa', 'a'), ('Josa', 'b'), ('Josa', 'ba'), ('Adverb', 'aa'), ('Adjective', 'b')]
    n = 7 if deep else 6
    words = list(gen.words_upto('ab', n, lo=1)) + ['c', 'cab', 'abc', 'abcba', 'cabacabb', 'abcc', 'ccc']

    def dictionary(mask):
        pos = {}
        for i, (tag, w) in enumerate(entries):
            if mask >> i & 1:
                pos.setdefault(tag, set()).add(w)
        return pos

    def setups(pos, variant):
        d = Dictionary(pos)
        if variant == 0:
            return d, LRTemplateMatcher(d), LREvaluator(), set(TAGS), TEMPL
        if variant == 1:
            pref = {'Noun': {'ab': 1.5, 'ba': 0.4}, 'Josa': {'b': 2.0}, 'Verb': {'ab': 0.3}}
            return d, LRTemplateMatcher(d), LREvaluator(preference=pref), set(TAGS), TEMPL
        templ = {'Verb': ('Josa', 'Noun'), 'Adverb': ('Adverb',)}
        lt = ['Verb', 'Adverb', 'Noun']
        return d, LRTemplateMatcher(d, ltags=lt, templates=templ), LREvaluator(), lt, templ

    def run(case, rec):
        mask, variant = case
        pos = dictionary(mask)
        d, gene, ev, ltags, templ = setups(pos, variant)
        tagger = SimpleTagger(gene, ev, UnknowLRPostprocessor())
        memory = []
        for w in words:
            rec.state((mask, variant, w))
            got = tagger.tag(w)
            memory.append(got)
            check_word(tagger, gene, ev, pos, ltags, templ, w, got, rec, 'tag(%r) with %r' % (w, pos))
        # a text is tagged word by word, flattened or not, whatever was tagged before
        for i in range(0, len(words) - 3, 5):
            s = '  '.join(words[i:i + 3]) + '\n' + words[0]
            want = memory[i:i + 3] + [memory[0]]
            rec.equal([list(x) for x in tagger.tag(s, flatten=False)], want, 'unflattened tags of %r' % s)
            rec.equal(list(tagger.tag(s)), [x for y in want for x in y], 'tags of %r' % s)
        rec.equal(list(tagger.tag('')), [], 'tags of the empty text')
        rec.trace()
        rec.sample(case)

    def run_pref(case, rec):
        tag, word, p = case
        pos = dictionary((1 << len(entries)) - 1)
        d = Dictionary(pos)
        gene = LRTemplateMatcher(d)
        plain, pref = LREvaluator(), LREvaluator(preference={tag: {word: p}})
        for w in gen.words_upto('ab', 6, lo=2):
            rec.state((tag, word, p, w))
            for c in gene.generate(w):
                bonus = (p if (c.l_tag, c.l) == (tag, word) else 0) + (p if (c.r_tag, c.r) == (tag, word) else 0)
                rec.close(pref.evaluate(c), plain.evaluate(c) + bonus, 'score of %r with preference %r' % (tuple(c), (tag, word, p)))
                rec.outcome(bonus)
        rec.trace()

    def run_scores(case, rec):
        mask, v = case
        pos = dictionary(mask)
        weights = [(0.3, 0.15, 0.2, 0.1, 0.1, 0.1, -0.2), (0.5, -1.0, 0.25, 2.0, -0.125, 0.75, 1.5), (-0.5, 0.25, 3.0, -2.0, 0.5, -0.25, 4.0)][v]
        ev = LREvaluator(weights=tuple(('w%d' % i, w) for i, w in enumerate(weights))) if v else LREvaluator()
        gene = LRTemplateMatcher(Dictionary(pos))
        for w in gen.words_upto('ab', 6, lo=2):
            rec.state((mask, v, w))
            cands = list(gene.generate(w))
            for c in cands:
                if c.l_tag in ('Verb', 'Adverb'):
                    continue           # which of the two the third feature means is not specified
                f = (c.l_tag == 'Noun', c.r_tag is not None, 0, c.l_tag == 'Adjective', len(c.l), len(c.r), 0)
                rec.close(ev.evaluate(c), sum(x * y for x, y in zip(weights, f)), 'score of %r' % (tuple(c),))
                one = c._replace(l=c.l[:1], m=c.b + 1)
                f = f[:4] + (1, c.e - c.b - 1, 1)
                rec.close(ev.evaluate(one), sum(x * y for x, y in zip(weights, f)), 'score of %r' % (tuple(one),))
                adj = c._replace(l_tag='Adjective')
                f = (0, c.r_tag is not None, 0, 1, len(c.l), len(c.r), 0)
                rec.close(ev.evaluate(adj), sum(x * y for x, y in zip(weights, f)), 'score of %r' % (tuple(adj),))
                unknown = c._replace(l_tag=None, r_tag=None)
                f = (0, 0, 0, 0) + (len(c.l), len(c.r), 0)
                rec.close(ev.evaluate(unknown), sum(x * y for x, y in zip(weights, f)), 'score of %r' % (tuple(unknown),))
            rec.outcome(len(cands))
        LR = type(LRTemplateMatcher(Dictionary({'Noun': {'ab'}})).generate('ab')[0])
        for nl, nr in () if mask != 1 << 10 else itertools.product((1, 2, 5, 6, 7, 8, 9, 10, 11, 15, 16, 17, 20, 31, 40, 64, 100, 300), (0, 1, 2, 5, 6, 7, 8, 9, 10, 11, 16, 17, 31, 33, 64, 300)):
            for lt, rt in (('Noun', 'Josa'), ('Noun', 'Verb'), ('Adjective', 'Josa'), ('Noun', None), (None, None)):
                if (rt is None) == (nr == 0):
                    c = LR('a' * nl, lt, 'b' * nr, rt, 3, 3 + nl, 3 + nl + nr)
                    rec.state((v, nl, nr, lt, rt))
                    f = (lt == 'Noun', lt is not None and rt is not None, 0, lt == 'Adjective', nl, nr, nl == 1)
                    rec.close(ev.evaluate(c), sum(x * y for x, y in zip(weights, f)), 'score of %r' % (tuple(c),))
        rec.trace()

    def run_pref2(case, rec):
        (t1, w1), (t2, w2), p1, p2 = entries[case[0]], entries[case[1]], 0.5, 2.25
        pos = dictionary((1 << len(entries)) - 1)
        d = Dictionary(pos)
        gene = LRTemplateMatcher(d)
        table = {}
        table.setdefault(t1, {})[w1] = p1
        table.setdefault(t2, {})[w2] = p2
        keep = {t: dict(x) for t, x in table.items()}
        plain, pref = LREvaluator(), LREvaluator(preference=table)
        for w in gen.words_upto('ab', 6, lo=2):
            rec.state((case[0], case[1], w))
            for c in gene.generate(w):
                bonus = keep.get(c.l_tag, {}).get(c.l, 0) + keep.get(c.r_tag, {}).get(c.r, 0)
                rec.close(pref.evaluate(c), plain.evaluate(c) + bonus, 'score of %r with preferences %r' % (tuple(c), keep))
                rec.outcome(bonus)
        rec.equal(table, keep, 'preference table after evaluating')
        rec.trace()

    def run_grow(case, rec):
        # the dictionary changes while taggers built on it stay in use
        first, second, variant = case
        pos = dictionary(first)
        for t, _ in entries:
            pos.setdefault(t, set())
        d, gene, ev, ltags, templ = setups(pos, variant)
        d = gene.dictionary
        tagger = SimpleTagger(gene, ev, UnknowLRPostprocessor())
        probe = words[::5] + ['abbaabbab', 'bbbbbbbabbbb', 'xabbaabbabab']
        new = dictionary(second)
        new.setdefault('Noun', set()).add('abbaabba')
        new.setdefault('Josa', set()).add('abbbb')
        for phase in range(3):
            for w in probe:
                rec.state((first, second, variant, phase, w))
                check_word(tagger, gene, ev, pos, ltags, templ, w, tagger.tag(w), rec, 'tag(%r) with %r after change %d' % (w, pos, phase))
            if phase == 0:
                for t in sorted(new):
                    d.add_words(t, set(new[t]), force=True)
                    pos[t] |= new[t]
            elif phase == 1:
                for t, w in entries[::2]:
                    d.remove_words(t, {w})
                    pos[t].discard(w)
        rec.trace()

    # one-character entries, so that every split of a short word is possible
    letters = [('Noun', 'a'), ('Noun', 'b'), ('Verb', 'a'), ('Verb', 'b'), ('Josa', 'a'), ('Josa', 'b'), ('Adjective', 'b'), ('Adverb', 'a'), ('Adverb', 'ab'), ('Noun', 'ba'), ('Exclamation', 'aa')]
    few = list(gen.words_upto('ab', 4, 1)) + ['abaab', 'babba', 'ac', 'ca', 'c']

    def run_eojeol(case, rec):
        mask, variant = case[:2]
        short = len(case) > 2
        pos = {}
        if short:
            for i, (t, w) in enumerate(letters):
                if mask >> i & 1:
                    pos.setdefault(t, set()).add(w)
        else:
            pos = dictionary(mask)
        d = Dictionary(pos)
        if variant in (0, 2):
            gene, singles, templ = EojeolTemplateMatcher(d), ['Noun', 'Verb', 'Adjective', 'Adverb', 'Exclamation'], [('Noun', 'Verb'), ('Noun', 'Adjective'), ('Noun', 'Josa')]
        else:
            singles, templ = ['Verb', 'Noun'], [('Noun', 'Josa'), ('Verb', 'Josa'), ('Adverb', 'Noun')]
            gene = EojeolTemplateMatcher(d, single_tags=singles, lr_templates=templ)
        weights = [-0.1, -0.15, 0.2, -0.3, 0.1, -0.05, 0.1, 0.2]
        if variant >= 2:
            weights = [[0.5, -0.25, 0.125, 1.0, 2.0, -0.75, -0.5, 0.25], [-0.125, 0.5, -2.0, 0.25, -1.0, 1.0, 3.0, -0.5]][variant - 2]
            ev = SimpleEojeolEvaluator(weights=tuple(('w%d' % i, w) for i, w in enumerate(weights)))
        else:
            ev = SimpleEojeolEvaluator()
        tagger = SimpleTagger(gene, ev)

        def score(c):
            """c: [(l, l_tag, r, r_tag)]"""
            nouns = sum(1 for x in c if x[1] == 'Noun')
            f = [nouns, len(c), nouns > 0, sum(1 for x in c if x[1] is None),
                 len(c) > 1 and all(x[1] == 'Adverb' for x in c), len(c) > 1 and nouns == len(c),
                 len(c) == 1 and c[0][1] == 'Noun' and c[0][3] == 'Josa', len(c) == 1 and c[0][1] == 'Noun' and not c[0][2]]
            return sum(w * x for w, x in zip(weights, f))

        def cut(w, tag):
            out, b = [], 0
            while b < len(w):
                e = next((e for e in range(b + 1, len(w) + (b > 0)) if w[b:e] in pos.get(tag, ())), None)
                if e is None:
                    return None
                out.append((w[b:e], tag, '', None))
                b = e
            return out

        def pieces(c):
            return [x for l, lt, r, rt in c for x in ((l, lt), (r, rt)) if x[0]]

        for w in few if short else words:
            rec.state((mask, variant, short, w))
            what = 'whole-word tag(%r) with %r' % (w, pos)
            got = [tuple(x) for x in tagger.tag(w)]
            rec.equal(''.join(p for p, _ in got), w, what + ': pieces joined')
            cands = [[(w, t, '', None)] for t in singles if w in pos.get(t, ())] or [[(w, None, '', None)]]
            cands += [[(w[:b], lt, w[b:], rt)] for b in range(1, len(w)) for lt, rt in templ if w[:b] in pos.get(lt, ()) and w[b:] in pos.get(rt, ())]
            cands += [c for c in (cut(w, 'Noun'), cut(w, 'Adverb')) if c]
            best = max(map(score, cands))
            mine = [score(c) for c in cands if pieces(c) == got]
            rec.check(mine, '%s: %r is no allowed form', what, got)
            rec.check(max(mine) >= best - 1e-9, '%s: selected %r of score %r although %r scores %r', what, got, max(mine), max(cands, key=score), best)
            offered = list(gene.generate(w))
            rec.equal(sorted(repr([tuple(x)[:4] for x in c]) for c in offered), sorted(map(repr, cands)), what + ': offered forms')
            for c in offered:
                b = 0
                for x in c:
                    rec.equal((x.b, x.m, x.e), (b, b + len(x.l), b + len(x.l) + len(x.r)), what + ': offsets of %r' % (x,))
                    b = x.e
                rec.close(ev.evaluate(c), score([tuple(x)[:4] for x in c]), what + ': score of %r' % (c,))
            rec.outcome((len(cands), len(got)))
        rec.trace()
        rec.sample(case)

    def run_long(case, rec):
        u, k, mask = case
        pos = dictionary(mask)
        pos.setdefault('Noun', set()).add('가나다라마바사아자차카타')
        pos.setdefault('Josa', set()).add('입니다만은요그렇지')
        w = (u * k)[:k]
        for variant in (0, 1, 2):
            d, gene, ev, ltags, templ = setups(pos, variant)
            tagger = SimpleTagger(gene, ev, UnknowLRPostprocessor())
            for x in (w, w + '가나다라마바사아자차카타입니다만은요그렇지', 'c' + w + 'c'):
                rec.state((variant, mask, x))
                check_word(tagger, gene, ev, pos, ltags, templ, x, tagger.tag(x), rec, 'tag(%r) with %r' % (x, pos))
        rec.trace()

    def run_sentences(case, rec):
        # several words per text, with punctuation and unknown characters, words longer than any entry
        mask, variant, whole = case
        pos = dictionary(mask)
        pos.setdefault('Noun', set()).update(['가나다', '가나', 'ab.', '다.'])
        pos.setdefault('Josa', set()).update(['는', '.', '?!'])
        if whole:
            d = Dictionary(pos)
            tagger = SimpleTagger(EojeolTemplateMatcher(d), SimpleEojeolEvaluator())
        else:
            d, gene, ev, ltags, templ = setups(pos, variant)
            tagger = SimpleTagger(gene, ev, UnknowLRPostprocessor())
        stems = ['ab', 'aba', 'bbabba', '가나다는', '가나다라마바사아자차카타파하', 'c', 'xabab', '가나는']
        tails = ['', '.', '?', '!', ',', '...', '.?!', ')', '"', '1', '\u200b', '🙂', '-', ' 는.', 'ㅋㅋ']
        ws = [x + t for t in tails for x in stems] + [t + x for t in tails[1:] for x in stems[:3]] + ['.', '?!', '..', '\ufeff']
        alone = {}
        for w in ws:
            for v in w.split():
                if v not in alone:
                    alone[v] = [tuple(x) for x in tagger.tag(v)]
                    rec.state((mask, variant, whole, v))
                    rec.equal(''.join(p for p, _ in alone[v]), v, 'tags of %r: pieces joined' % v)
                    if not whole:
                        check_word(tagger, gene, ev, pos, ltags, templ, v, alone[v], rec, 'tag(%r) with %r' % (v, pos))
        for i, w in enumerate(ws):
            for other in (ws[gen.mix(i) % len(ws)], ws[gen.mix(i + 7) % len(ws)] + '\t' + ws[gen.mix(i + 3) % len(ws)]):
                for s in (other + ' ' + w, w + '  ' + other + '\n', ' ' + w + ' ' + other + ' ' + w):
                    want = [alone[v] for v in s.split()]
                    rec.equal([[tuple(p) for p in x] for x in tagger.tag(s, flatten=False)], want, 'unflattened tags of %r with %r' % (s, pos))
                    rec.equal([tuple(x) for x in tagger.tag(s)], [x for y in want for x in y], 'tags of %r with %r' % (s, pos))
        s = ' '.join(ws * 20)
        want = [alone[v] for v in s.split()]
        rec.check([[tuple(p) for p in x] for x in tagger.tag(s, flatten=False)] == want, 'unflattened tags of a text of %d words', len(want))
        rec.check([tuple(x) for x in tagger.tag(s)] == [x for y in want for x in y], 'tags of a text of %d words', len(want))
        rec.trace()

    def run_lengths(case, rec):
        nl, nr, kind = case
        seq = ''.join(gen.debruijn('abc', 4))
        l, r = seq[:nl], seq[40:40 + nr]
        pos = [{'Noun': {l}, 'Josa': {r}}, {'Noun': {l, l[:-1] or l}, 'Verb': {r, r[1:] or r}}, {'Adjective': {l}, 'Noun': {l[:2], l[1:]}, 'Josa': {r, r[:1]}}][kind]
        d, gene, ev, ltags, templ = setups(pos, 0)
        tagger = SimpleTagger(gene, ev, UnknowLRPostprocessor())
        for w in (l + r, 'x' + l + r + 'x', l + r + l, l + 'x' + r):
            rec.state((nl, nr, kind, w))
            check_word(tagger, gene, ev, pos, ltags, templ, w, [tuple(x) for x in tagger.tag(w)], rec, 'tags of %r with %r' % (w, pos))
        rec.trace()

    def run_scale(case, rec):
        n, cut, whole = case
        seq = ''.join(gen.debruijn('abcd', 5))
        pos = {'Noun': {seq[gen.mix(i) % 900:][:1 + i % 7] for i in range(n)}, 'Josa': {seq[gen.mix(i * 3) % 900:][:1 + i % 3] for i in range(0, n, 4)},
               'Verb': {seq[gen.mix(i * 7) % 900:][:2 + i % 4] for i in range(0, n, 3)}, 'Adverb': {'aabb', 'dd'}}
        ws = [seq[i:i + cut] for i in range(0, 1000, max(37, cut // 2))]
        for variant in (0, 1):
            d, gene, ev, ltags, templ = setups(pos, variant)
            tagger = SimpleTagger(gene, ev, UnknowLRPostprocessor())
            alone = {}
            for w in ws:
                rec.state((n, cut, variant, w))
                alone[w] = tagger.tag(w)
                if not whole:
                    got = alone[w]
                    rec.equal(''.join(p for p, _ in got), w, 'tags of %r: pieces joined' % w)
                    want = reference_candidates(w, pos, ltags, templ)
                    cands = list(gene.generate(w))
                    rec.check({tuple(c) for c in cands} == want, 'offered analyses of %r with %d nouns: %r', w, len(pos['Noun']), sorted(map(repr, {tuple(c) for c in cands} ^ want))[:5])
                    last = None
                    for p, t in got:
                        rec.check(t is None or p in pos[t], 'tags of %r: %r is no %s', w, p, t)
                        rec.check(t != 'Josa' or (last is not None and last in ltags), 'tags of %r: %r after %r', w, t, last)
                        rec.check(t is not None or last is not None or p is got[0][0], 'tags of %r: two unknown pieces in a row', w)
                        last = t
        rec.trace()

    masks = range(1 << len(entries))
    return [
        Harness('lr_default', run, [[m, 0] for m in masks if deep or bin(m).count('1') <= 6], chunk=8, about='every dictionary over 11 tagged entries x all words over {a,b}, default templates', bound='words <= %d%s' % (n, '' if deep else ', dictionaries with at most 6 entries')),
        Harness('lr_configured', run, [[m, v] for m in masks for v in (1, 2) if deep or (m % 5 == 2)], chunk=8, about='user preferences; custom L tags and templates', bound='words <= %d' % n),
        Harness('preferences', run_pref, [[t, w, p] for t, w in entries for p in (0.5, -1.0, 3)], chunk=2, about='every single preference entry on every analysis of every word', bound='words <= 6'),
        Harness('scores', run_scores, [[m | 1 << 10, v] for m in range(0, 1024, 1 if deep else 7) for v in range(3)], chunk=16, about='scores of all offered analyses, of one-character and unknown ones, with default and other weights', bound='words <= 6'),
        Harness('preference_pairs', run_pref2, [[i, j] for i in range(len(entries)) for j in range(len(entries)) if i != j], chunk=8, about='every pair of preference entries on every analysis of every word', bound='words <= 6'),
        Harness('growing', run_grow, [[a, b, v] for a in (0, 1, 0b10000100, 0b1100, 2047, 0b10101010101) for b in range(0, 2048, 97 if not deep else 13) for v in (0, 1, 2)], chunk=8, about='taggers in use while words are added and removed', bound='2 changes'),
        Harness('whole_word', run_eojeol, [[m, v] for m in masks for v in range(4) if deep or bin(m).count('1') <= (5 if v < 2 else 3) or gen.mix(m * 4 + v) % 16 == 0], chunk=8, about='whole-word matcher with its evaluator', bound='words <= %d' % n),
        Harness('whole_word_short', run_eojeol, [[m, v, 1] for m in range(1 << len(letters)) for v in range(4) if deep or (v == 0 and bin(m).count('1') <= 5) or gen.mix(m * 4 + v) % 8 == 0], chunk=8, about='whole-word matcher, every dictionary over 11 one- and two-character entries', bound='words <= 4'),
        Harness('sentences', run_sentences, [[m, v, wh] for m in (2047, 0b00111010101, 0b111, 0, 0b10000100, 0b11100000) for v in (0, 1, 2) for wh in (0, 1) if not wh or v == 0], chunk=1, about='texts of several words with punctuation, emoji and unknown rests, dictionary entries with punctuation', bound='4 words; texts of 2500 words'),
        Harness('lengths', run_lengths, [[nl, nr, k] for nl in (2, 3, 5, 7, 8, 9, 10, 11, 12, 16, 17, 21, 33) for nr in (1, 2, 4, 6, 7, 8, 9, 10, 11, 12, 17, 33) for k in range(3)], chunk=4, about='L and R words of every length class in words with unknown borders', bound='parts <= 33'),
        Harness('scale', run_scale, [[n, c, 0] for n in (30, 300, 3000) for c in (12, 40, 90)], chunk=1, about='dictionaries of thousands of entries on long words', bound='3000 entries, words <= 90'),
        Harness('long', run_long, [[u, k, m] for u in ['ab', 'aab', 'abbab', 'abc', '가나'] for k in (8, 13, 25) for m in (2047, 0b00111010101, 0b111, 0)], chunk=2, about='long words and long dictionary entries', bound='length <= 46'),
    ]
