"""P10: noun tokenizers."""
import itertools

from mc import gen
from mc.core import Harness
from mc.props.p09 import greedy

PROP = dict(
    id='P10',
    title='Noun tokenizers return exactly the dictionary nouns they promise',
    statement=(
        'For every noun dictionary and text, the L-match noun tokenizer follows each word from its beginning, always taking the longest dictionary noun that starts where the previous one ended and stopping at the first position where none starts; it returns the nouns taken (joined into one compound per word, or one by one on request) and nothing for words that do not begin with a noun. '
        'The match noun tokenizer returns the tokens of the max-score segmentation whose score is positive, joining those that touch into one compound per run with the highest of their scores, with correct offsets in the unflattened form. '
        'Neither returns an empty string or a string that is not made of dictionary nouns.'),
    quantifier=dict(over=['inputs', 'configurations', 'histories'], text='all texts and noun dictionaries'),
    why_tests_cant='No test uses the noun tokenizers at all.',
    anchors=dict(files=['soynlp/tokenizer/_noun_tokenizer.py'],
                 mechanism=[dict(name='NounLMatchTokenizer._max_length_l_tokenize', where='soynlp/tokenizer/_noun_tokenizer.py'),
                            dict(name='NounMatchTokenizer.tokenize / concatenate', where='soynlp/tokenizer/_noun_tokenizer.py')],
                 observe_at=['NounLMatchTokenizer.tokenize', 'NounMatchTokenizer.tokenize'], hook_needed=None))

CHECK = dict(
    technique='bounded-exhaustive enumeration of noun dictionaries x texts on the real tokenizers against greedy-match references',
    level_note='All subsets of a menu of overlapping nouns x all texts over a small alphabet up to the stated length; long periodic words up to 60 characters.',
    assumptions=['the empty string is not a noun; noun scores are finite'])


def l_match(token, nouns):
    out, e = [], 0
    while e < len(token):
        ks = [k for k in range(1, len(token) - e + 1) if token[e:e + k] in nouns]
        if not ks:
            break
        out.append(token[e:e + max(ks)])
        e += max(ks)
    return out


def match(token, scores):
    words = [w for w in greedy(token, scores, 10, 0.0) if w[3] > 0]
    runs = []
    for w in words:
        if runs and runs[-1][2] == w[1]:
            b, sc = runs[-1][1], max(runs[-1][3], w[3])
            runs[-1] = (token[b:w[2]], b, w[2], sc, w[2] - b)
        else:
            runs.append(w)
    return words, runs


def harnesses(tier):
    from soynlp.tokenizer import NounLMatchTokenizer, NounMatchTokenizer
    deep = tier == 'thorough'
    menu = ['a', 'ab', 'ba', 'aab', 'b', 'bab', 'abba']
    n = 7 if deep else 6
    texts = list(gen.words_upto('ab ', n)) + [w + 'c' + v for w in gen.words_upto('ab', 3) for v in gen.words_upto('ab', 3)]

    def compare(lt, mt, nouns, scores, s, rec):
        ws = s.split()
        rec.state((tuple(sorted(scores.items())), s))
        chains = [c for c in (l_match(w, nouns) for w in ws) if c]
        what = '%r with nouns %r' % (s, scores)
        rec.equal(list(lt.tokenize(s)), [''.join(c) for c in chains], 'L-match of ' + what)
        rec.equal(list(lt.tokenize(s, compose_compound=False)), [x for c in chains for x in c], 'L-match units of ' + what)
        rec.equal(list(lt(s)), [''.join(c) for c in chains], 'L-match() of ' + what)
        ms = [match(w, scores) for w in ws]
        for compose, idx in ((False, 0), (True, 1)):
            rec.equal([[tuple(x) for x in w] for w in mt.tokenize(s, flatten=False, compose_compound=compose)], [m[idx] for m in ms],
                      'match (unflattened, compound=%s) of %s' % (compose, what))
            rec.equal(list(mt(s, True, compose)), [x[0] for m in ms for x in m[idx]], 'match (compound=%s) of %s' % (compose, what))
        rec.equal(list(mt(s)), [x[0] for m in ms for x in m[1]], 'match() without options of ' + what)
        rec.equal(list(mt.tokenize(s)), [x[0] for m in ms for x in m[1]], 'match without options of ' + what)
        rec.outcome((len(chains), tuple(len(m[1]) for m in ms)))

    def run(case, rec):
        mask, kind = case
        vals = (0.5, 0.25, 0.75, 0.375, 0.125, 1.0, 0.625)
        scores = {w: (vals[i] if kind == 0 else 1.0 if kind == 1 else (0.5 if i % 3 else 0.0)) for i, w in enumerate(menu) if mask >> i & 1}
        nouns = set(scores) if kind == 0 else dict(scores) if kind == 1 else frozenset(scores)
        before = dict(scores)
        lt, mt = NounLMatchTokenizer(nouns), NounMatchTokenizer(scores)
        for s in texts:
            compare(lt, mt, nouns, scores, s, rec)
        rec.equal(scores, before, 'noun scores after tokenizing')
        rec.equal(set(nouns), set(before), 'nouns after tokenizing')
        rec.trace()
        rec.sample(case)

    korean = {'뉴스': 0.9, '뉴스기사': 0.8, '기사': 0.7, '사': 0.3, '이용': 0.6, '자': 0.4, '이용자': 0.95}
    kalpha = ['뉴스', '기사', '이용', '자', '를', ' ', 'x']
    kn = 6 if deep else 5

    def run_korean(case, rec):
        lt, mt = NounLMatchTokenizer(korean), NounMatchTokenizer(korean)
        for t in itertools.product(kalpha, repeat=kn - 2):
            compare(lt, mt, korean, korean, ''.join(case) + ''.join(t), rec)
        rec.trace()
        rec.sample(case)

    def run_long(case, rec):
        u, k, which = case
        s = (u * k)[:k]
        scores = [{'ab': 0.5, 'aba': 0.75, 'b': 0.25}, {s[:11]: 0.5, 'ab': 0.75}, {s: 1.0, 'a': 0.5}, {s[:k // 2]: 0.5, s[k // 2:k // 2 + 3]: 0.25, 'c': 1.0}][which]
        compare(NounLMatchTokenizer(scores), NounMatchTokenizer(scores), scores, scores, s + ' ' + s[1:] + ' x' + s, rec)
        rec.trace()

    def run_scale(case, rec):
        n, k = case
        seq = ''.join(gen.debruijn('abcd', k)) * 3
        scores = {}
        for i in range(300):
            b, m = gen.mix(i) % 250, 1 + gen.mix(i * 3) % 6
            scores[seq[b:b + m]] = [0.5, 0.25, 0.75, 0.0, 1.0][i % 5]
        scores.update(('n%d' % i, 0.25 + (i % 3) / 4) for i in range(0, 5000, 2))
        lt, mt = NounLMatchTokenizer(scores), NounMatchTokenizer(scores)
        some = set(sorted(scores)[::3])
        for nouns in (scores, {w: v for w, v in scores.items() if w in some}):
            lt, mt = NounLMatchTokenizer(nouns), NounMatchTokenizer(nouns)
            text = ' '.join(seq[b:b + n] for b in range(0, 256, 16)) + ' ' + ' '.join('n%d을' % i for i in range(5000 if n > 100 else 50)) + '\tn3n5n7을 xn4n6'
            compare(lt, mt, nouns, nouns, text, rec)
        rec.trace()

    return [
        Harness('scale', run_scale, [[n, k] for n in (8, 40, 130, 190) for k in (3, 4)], about='long words in which every 3- or 4-gram over 4 letters occurs, large dictionaries, thousands of words', bound='words <= 190'),
        Harness('dictionaries', run, [[m, k] for m in range(1 << len(menu)) for k in range(3)], chunk=8, about='every subset of 7 overlapping nouns x 3 score/collection kinds x all texts over {a,b,blank}', bound='length <= %d' % n),
        Harness('korean', run_korean, [list(t) for t in itertools.product(kalpha, repeat=2)], chunk=1, about='all sequences of %d Korean units with a realistic noun dictionary' % kn, bound='%d units' % kn),
        Harness('long', run_long, [[u, k, w] for u in ['ab', 'aab', 'abc', 'a'] for k in (3, 9, 10, 11, 12, 21, 40, 60) for w in range(4)], chunk=8, about='long periodic words', bound='length <= 60'),
    ]
