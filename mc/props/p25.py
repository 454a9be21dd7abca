"""P25: LRNounExtractor_v2."""
import itertools
import os
import shutil
import tempfile

from mc import core, gen
from mc.core import Harness
from mc.props.p09 import greedy
from mc.props.p14 import compare_graph

PROP = dict(
    id='P25',
    title='Noun extractor v2 predicts and counts nouns and compounds exactly',
    statement=(
        'For every corpus, feature set and threshold, LRNounExtractor_v2 scores a word from the R parts that follow it, ignoring R parts of which a longer feature ends the word: (pos-neg)/(pos+neg) over the counts of the features that are only positive or only negative, with support pos+common+end if that reaches the minimum score and neg+common+end otherwise (end: the word is the whole eojeol). '
        'If not more than min_num_of_features such features follow, the word keeps that score when it ends more than max_frequency_when_noun_is_eojeol eojeols and pos>=neg; otherwise it has (pos+common+end) as support and its share of all counts as score when that is mostly words of their own (end share >= 0.3, some pos or common, common>=neg) or when the R parts that are features without a longer one or no features at all start with two or more characters; otherwise 0. '
        'extract() examines the words that precede a positive feature from long to short, takes those that reach the minimum score and removes the eojeols they start from what shorter words are judged by; an eojeol prefix of four or more characters that the max-score tokenizer with the nouns (of two or more characters, scored by length) splits into nouns only, or into two or more nouns and a positive feature, is a compound with the best score of its parts and the count of the eojeols that are it, or it and a feature. '
        'Nouns below the minimum frequency are dropped, then noun+feature words, words that are positive or common features, and rarer noun+particle words whose noun takes five or more particles, exactly as the postprocessing list says. Sentences (their eojeols normalised if asked, and those rarer than the minimum eojeol frequency left out), an eojeol counter or an L-R graph of the same corpus give the same nouns, with messages and log files or without; afterwards the graph is as it was, or, without reset, lacks exactly the eojeols that start with a noun.'),
    quantifier=dict(over=['inputs', 'configurations', 'histories'], text='all eojeol counts, feature sets, thresholds, input kinds and postprocessing lists'),
    why_tests_cant='The one test prints the nouns of a sample corpus; no score, frequency, compound or postprocessing step is compared with anything.',
    anchors=dict(files=['soynlp/noun/_noun_ver2.py', 'soynlp/noun/_noun_postprocessing.py'],
                 mechanism=[dict(name='LRNounExtractor_v2.predict / extract / extract_compounds', where='soynlp/noun/_noun_ver2.py'),
                            dict(name='detaching_features / ignore_features / check_N_is_NJ', where='soynlp/noun/_noun_postprocessing.py')],
                 state=[dict(name='L-R graph', meaning='eojeols not yet explained by a noun', where='soynlp/utils/utils.py')],
                 observe_at=['train', 'extract', 'train_extract', 'predict', 'decompose_compound', 'lrgraph'], hook_needed=None))

CHECK = dict(
    technique='bounded-exhaustive enumeration of eojeol counts x feature sets x thresholds on the real extractor, every result compared with an independent reference extraction',
    level_note='All count vectors over fixed eojeol universes built so that every rule (longer features, common features, exceptions, nested candidates, compounds, each postprocessing step) decides some of them; synthetic predictors from scratch files and the default predictor with real particles.',
    assumptions=['eojeols and features are nonempty', 'thresholds are positive; noun scores that equal the minimum score exactly are not used as compound parts'])


class Ref:
    def __init__(self, pos, neg, counts, max_l, max_r, mnf, maxf):
        common = pos & neg
        self.pos, self.neg, self.common = pos - common, neg - common, common
        self.counts = {e: c for e, c in counts.items() if c > 0 and len(e) <= max_l + max_r}
        self.max_l, self.max_r, self.mnf, self.maxf = max_l, max_r, mnf, maxf
        self.left = dict(self.counts)
        self.starts = {}
        for e in self.counts:
            for i in range(max(1, len(e) - max_r), min(len(e), max_l) + 1):
                self.starts.setdefault(e[:i], []).append(e)

    def pairs(self, counts):
        return {(e[:i], e[i:]): c for e, c in counts.items() for i in range(1, min(len(e), self.max_l) + 1) if len(e) - i <= self.max_r}

    def features(self, word):
        return {e[len(word):]: self.left[e] for e in self.starts.get(word, ()) if e in self.left}

    def predict(self, word, min_score):
        fs = self.features(word)
        longer = lambda r, feats: any(word[i:] + r in feats for i in range(len(word)))
        pos = neg = common = unk = 0
        end = fs.get('', 0)
        n = 0
        chars = set()
        for r, c in fs.items():
            lp, ln = longer(r, self.pos), longer(r, self.neg)
            if r in self.pos and not lp or r in self.neg and not ln:
                n += 1
            if not r:
                continue
            if r in self.pos or r in self.common:
                if not lp:
                    chars.add(r[0])
            else:
                chars.add(r[0])
            if lp or ln:
                continue
            if r in self.common:
                common += c
            elif r in self.pos:
                pos += c
            elif r in self.neg:
                neg += c
            else:
                unk += c
        score = (pos - neg) / (pos + neg) if pos + neg else 0
        support = (pos if score >= min_score else neg) + end + common
        if n > self.mnf:
            return support, score
        total = pos + common + neg + unk + end
        if not total:
            return support, 0
        if end > self.maxf and pos >= neg:
            return support, score
        if (common or pos) and end / total >= 0.3 and common >= neg or len(chars) >= 2:
            return pos + common + end, (pos + common + end) / total
        return support, 0

    def candidates(self):
        return {l for (l, r) in self.pairs(self.counts) if r in self.pos}

    def remove(self, word):
        for r in self.features(word):
            del self.left[word + r]

    def parts(self, word, scores):
        toks = greedy(word, scores, 10, 0.0)
        if any(t[3] <= 0 for t in toks[:-1]):
            return None
        if len(toks) >= 3 and toks[-1][0] in self.pos:
            return tuple(t[0] for t in toks[:-1])
        if toks[-1][3] > 0:
            return tuple(t[0] for t in toks)
        return None

    def extract(self, min_score, min_freq, compound, post, josa, suffix):
        self.left = dict(self.counts)
        pred = {}
        for w in sorted(self.candidates(), key=lambda w: -len(w)):
            pred[w] = self.predict(w, min_score)
            if pred[w][1] >= min_score:
                self.remove(w)
        nouns = {w: s for w, s in pred.items() if s[1] >= min_score}
        self.lengths = {w: len(w) for w, s in pred.items() if s[1] > min_score and len(w) > 1}
        self.components = {}
        if compound:
            comp = {}
            for w in {l for l, _ in self.pairs(self.counts) if len(l) >= 4 and l not in self.lengths}:
                parts = self.parts(w, self.lengths)
                if parts:
                    noun = ''.join(parts)
                    # an eojeol longer than the R limit is not in the graph as a whole
                    c = self.counts.get(w, 0)
                    s = max(pred.get(p, (0, 0))[1] for p in parts)
                    old = comp.get(noun, (0, 0))
                    comp[noun] = (old[0] + c, max(old[1], s))
                    self.components[noun] = parts
            nouns.update(comp)
        nouns = {w: s for w, s in nouns.items() if s[0] >= min_freq}
        origin = self.pairs(self.counts)
        for m in post:
            if m == 'detaching_features':
                drop = {w for w in nouns if any(w[:e] in nouns and w[e:] in self.pos for e in range(2, len(w) - 1))}
            elif m == 'ignore_features':
                drop = {w for w in nouns if w in self.pos or w in self.common}
            else:
                drop = {w for w in nouns for e in range(2, len(w))
                        if w[e:] in josa and w[e:] not in suffix and w[:e] in nouns and nouns[w][0] < nouns[w[:e]][0]
                        and sum(1 for (l, r) in origin if l == w[:e] and r in josa) >= 5}
            nouns = {w: s for w, s in nouns.items() if w not in drop}
        self.left = dict(self.counts)
        self.uncovered = dict(self.counts)
        cands = self.candidates()
        for e in self.counts:
            for i in range(1, min(len(e), self.max_l) + 1):
                l, r = e[:i], e[i:]
                if l in nouns and len(r) <= self.max_r and l in cands and (i > 1 or not r or r in self.pos or r in self.common):
                    self.uncovered.pop(e, None)
        return nouns


ALL = ('detaching_features', 'ignore_features', 'ignore_NJ')


def harnesses(tier):
    from soynlp.noun import LRNounExtractor_v2
    from soynlp.utils import EojeolCounter, LRGraph
    deep = tier == 'thorough'
    read = lambda name: {w.strip() for w in open(os.path.join(core.REPO, 'soynlp', name), encoding='utf8') if w.strip()}
    josa, suffix = read('noun/frequent_enrolled_josa.txt'), read('noun/frequent_noun_suffix.txt')
    default = read('trained_models/noun_predictor_ver2_pos'), read('trained_models/noun_predictor_ver2_neg')
    cache = {}

    def extractor(pos, neg, kw):
        """the extractor is reused over all inputs of a root: results must not depend on earlier training"""
        key = (pos, neg, tuple(sorted(kw.items())))
        if key not in cache:
            if pos is None:
                cache[key] = LRNounExtractor_v2(**dict(dict(verbose=False), **kw))
            else:
                d = tempfile.mkdtemp()
                try:
                    # the features are spread over two predictors
                    for i in (0, 1):
                        for name, fs in (('pos', pos), ('neg', neg)):
                            with open('%s/m%d_%s' % (d, i, name), 'w', encoding='utf8') as f:
                                f.write(''.join(x + '\n' for x in sorted(fs)[i::2]))
                    cache[key] = LRNounExtractor_v2(**dict(dict(verbose=False, predictor_headers=['%s/m0' % d, '%s/m1' % d]), **kw))
                finally:
                    shutil.rmtree(d)
        return cache[key]

    def sentences(counts):
        words = [e for e, c in counts.items() for _ in range(c)]
        return [' '.join(words[i::3]) for i in range(3)] if len(words) > 2 else [' '.join(words) + '  ']

    def one(pos, neg, counts, rec, kw=(), min_score=0.3, min_freq=1, how='counter', reset=True, extra=(), full=True):
        kw = dict(kw)
        ex = extractor(pos, neg, kw)
        p, n = (frozenset(pos), frozenset(neg)) if pos is not None else default
        max_l, max_r = kw.get('max_left_length', 10), kw.get('max_right_length', 9)
        ref = Ref(set(p), set(n), counts, max_l, max_r, kw.get('min_num_of_features', 1), kw.get('max_frequency_when_noun_is_eojeol', 30))
        post = kw.get('postprocessing') or ALL
        if isinstance(post, str):
            post = [post]
        want = ref.extract(min_score, min_freq, kw.get('extract_compound', True), post, josa, suffix)
        what = 'counts=%r %r min_score=%r min_freq=%r input=%s pos=%r neg=%r' % (counts, kw, min_score, min_freq, how, pos and sorted(pos), neg and sorted(neg))
        given = None
        if how == 'sents':
            given = sentences(counts)
        elif how == 'dict':
            table = {}
            for (l, r), c in ref.pairs(ref.counts).items():
                table.setdefault(l, {})[r] = c
            given = LRGraph(table)
        else:
            given = EojeolCounter(sentences(counts), max_length=max_l + max_r)
            if how == 'graph':
                given = given.to_lrgraph(max_l, max_r)
        if reset and how != 'sents':
            got = ex.train_extract(given, min_score, min_freq)
        else:
            ex.train(given)
            got = ex.extract(min_score, min_freq, reset)
        rec.step()
        if {w: tuple(s) for w, s in got.items()} != want:
            same = set(got) == set(want) and all(got[w].frequency == want[w][0] and abs(got[w].score - want[w][1]) < 1e-9 for w in want)
            rec.check(same, 'nouns of %s: implementation gives %r, reference gives %r', what, dict(got), want)
        rec.check(all(s == (s.frequency, s.score) for s in got.values()), 'scores of %s: %r', what, got)
        if full:
            left = ref.counts if reset else ref.uncovered
            compare_graph(ex.lrgraph, ref.pairs(left), 'graph after extracting from ' + what, rec, extra=[(l, r) for l, r in ref.pairs(ref.counts)])
            ex.lrgraph.reset_lrgraph()
            for w in extra:
                rec.close(ex.predict(w, min_score)[1], ref.predict(w, min_score)[1], 'score of %r in %s' % (w, what))
                rec.equal(ex.predict(w, min_score)[0], ref.predict(w, min_score)[0], 'support of %r in %s' % (w, what))
            if kw.get('extract_compound', True):
                for w in sorted({l for l, _ in ref.pairs(ref.counts) if len(l) >= 3} | {'ABCDABCD', 'ABCDEF', 'ABX'}):
                    rec.equal(tuple(ex.decompose_compound(w)), ref.parts(w, ref.lengths) or (w,), 'decomposition of %r in %s' % (w, what))
        rec.outcome((len(got), len(ref.components)))
        rec.trace()

    # -- word scores: every count vector over the R parts of one word
    Rs1 = ['', '가', '나', '은', '다', '지', '임']
    feats = [(frozenset(['가', '나', '은', '에서', '서']), frozenset(['다', '지', '은'])),
             (frozenset(['가', '나', '은', 'B가']), frozenset(['다', '지', '은', 'AB다', 'B임'])),
             (frozenset(['가', '나가', '은', 'B은']), frozenset(['나', '다', '지', '은', 'B지'])),
             (frozenset(['가', '나', 'C']), frozenset(['다']))]

    # the same with features that share their first character: only the other exceptions can apply
    feats.append((frozenset(['은', '은가', '은지']), frozenset(['은데', '은지'])))
    feats.append((frozenset(['은', '은지', 'B은데']), frozenset(['은가', '은지', '은데'])))
    Rs2 = ['', '은', '은데', '은가', '은지', '은요', '다']

    def run_predict(case, rec):
        fi, mnf, maxf, first = case
        pos, neg = feats[fi]
        Rs = Rs2 if fi >= 4 else Rs1
        ex = extractor(pos, neg, dict(min_num_of_features=mnf, max_frequency_when_noun_is_eojeol=maxf, postprocessing='detaching_features'))
        vals = [0, 1, 3]
        for rest in itertools.product(vals, repeat=len(Rs) - 2):
            for a in vals + [31]:
                v = (a, first) + rest
                counts = {'AB' + r: c for r, c in zip(Rs, v)}
                pairs = {}
                for e, c in counts.items():
                    for i in range(1, len(e) + 1) if c else ():
                        pairs.setdefault(e[:i], {})[e[i:]] = c
                ex.train(LRGraph(pairs))
                ref = Ref(set(pos), set(neg), counts, 10, 9, mnf, maxf)
                rec.state((fi, mnf, maxf, v))
                for ms in (0.25, 0.5):
                    got, want = ex.predict('AB', ms), ref.predict('AB', ms)
                    rec.step()
                    rec.check(got[0] == want[0] and abs(got[1] - want[1]) < 1e-9, 'predict(AB, %r) with counts %r pos=%r neg=%r min_num_of_features=%d max_frequency=%d: implementation gives %r, reference gives %r',
                              ms, counts, sorted(pos), sorted(neg), mnf, maxf, got, want)
                    rec.outcome(round(want[1], 2))
                rec.trace()
        rec.sample(case)

    # -- extraction over nested candidates
    nest = ['A가', 'A', 'AB', 'AB가', 'AB은', 'AB나', 'AB다', 'ABC', 'ABC가', 'ABC에서', 'ABCD가']
    def run_nested(case, rec):
        fi, first, kwi = case
        pos, neg = feats[fi]
        kw = [dict(), dict(extract_compound=False, min_num_of_features=0), dict(max_left_length=3, max_right_length=2, postprocessing='ignore_features')][kwi]
        vals = [0, 1, 3]
        for rest in itertools.product(*[vals if deep and i % 2 == 0 else [0, 2] for i in range(len(nest) - len(first))]):
            v = tuple(first) + rest
            counts = dict(zip(nest, v))
            rec.state((fi, kwi, v))
            one(pos, neg, counts, rec, kw=kw, full=sum(v) % 5 == 0, extra=('A', 'AB', 'ABC', 'Q'))
        rec.sample(case)

    # -- compounds: two or three sure nouns plus every combination of composed eojeols
    base = {'AB가': 3, 'AB나': 2, 'AB': 1, 'CD가': 4, 'CD나': 1, 'CD': 2, 'E가': 2, 'E나': 2, 'CDF가': 1, 'CDF나': 1}
    comps = ['ABCD', 'ABCD가', 'ABCD에서', 'ABCDAB', 'CDFAB', 'ABE가', 'CDABCDF나', 'ABXCD', 'ABCDF', 'ABCDX가']
    cpos, cneg = frozenset(['가', '나', '에서', '은']), frozenset(['다', '은', '지'])

    def run_compound(case, rec):
        v, mf, kwi = case
        kw = [dict(), dict(postprocessing=('ignore_features',)), dict(max_left_length=4, max_right_length=3), dict(extract_compound=False)][kwi]
        for rest in itertools.product([0, 1, 3] if deep else [0, 3], repeat=len(comps) - len(v)):
            w = tuple(v) + rest
            counts = dict(base)
            counts.update(zip(comps, w))
            rec.state((w, mf, kwi))
            one(cpos, cneg, counts, rec, kw=kw, min_freq=mf, full=sum(w) % 4 == 0)
        rec.sample(case)

    # -- postprocessing: noun + feature / noun + particle words among the nouns
    pp = ['AB도', 'AB로', 'AB만', 'AB을', 'AB의', 'AB', 'AB도가', 'AB도나', 'AB은가', 'AB은나', 'AB에서가', 'AB에서나', '에서가', '에서나', 'AB서가', 'AB서나']
    ppos, pneg = frozenset(['가', '나', '에서', '은', '도']), frozenset(['은', '다'])
    lists = [p for k in (1, 2, 3) for p in itertools.permutations(ALL, k)] + ['ignore_NJ', 'detaching_features', 'ignore_features']

    def run_post(case, rec):
        li, hi, role = case
        # role 1: the two-character feature is common to both kinds
        neg = pneg | {'에서'} if role else pneg
        kw = dict(postprocessing=lists[li] if isinstance(lists[li], str) else tuple(lists[li]), min_num_of_features=1)
        for bits in itertools.product([0, 1], repeat=8):
            counts = {}
            for i, b in enumerate(bits):
                counts[pp[2 * i]] = 3 * b if i < 3 else hi * b
                counts[pp[2 * i + 1]] = b if i < 3 else hi * b
            counts['AB가'] = counts['AB나'] = 2
            for mf in (1, 3):
                rec.state((li, hi, role, bits, mf))
                one(ppos, neg, counts, rec, kw=kw, min_freq=mf, full=False)
        rec.sample(case)

    # -- the default predictor with real particles, all kinds of input
    real = ['아이오아이는', '아이오아이의', '아이오아이', '아이오', '뉴스', '뉴스를', '뉴스에서', '뉴스방송은', '뉴스방송', '뉴스방송사과', '방송이', '방송과', '방송사', '되었다고', '관계자는']

    words = real if deep else real[:8] + real[9:13]

    def run_real(case, rec):
        first, how, reset = case
        for rest in itertools.product([0, 2], repeat=(15 if deep else 12) - len(first)):
            v = tuple(first) + rest
            counts = dict(zip(words, v))
            if not any(v):
                continue
            rec.state((v, how, reset))
            one(None, None, counts, rec, how=how, reset=reset, full=True, extra=('뉴스', '방송', '관계', '없는'))
        rec.sample(case)

    # -- how features are spread over predictors
    def run_headers(case, rec):
        feats3 = ['가', '은', '다']
        counts = {'사과가': 4, '사과은': 2, '사과다': 1, '사과': 1}
        for rest in itertools.product(range(16), repeat=len(feats3) - len(case)):
            roles = tuple(case) + rest
            sets = [{f for f, r in zip(feats3, roles) if r >> k & 1} for k in range(4)]
            if not sets[0] | sets[2] or not sets[1] | sets[3]:
                continue
            d = tempfile.mkdtemp()
            try:
                for k, name in enumerate(('a_pos', 'a_neg', 'b_pos', 'b_neg')):
                    with open('%s/%s' % (d, name), 'w', encoding='utf8') as f:
                        f.write(''.join(x + '\n' for x in sorted(sets[k])))
                headers = [['%s/a' % d, '%s/b' % d], ['%s/b' % d, '%s/a' % d]]
                if not sets[2] | sets[3]:
                    headers.append('%s/a' % d)
                for h in headers:
                    ex = LRNounExtractor_v2(verbose=False, predictor_headers=h)
                    ex.train(EojeolCounter(sentences(counts)))
                    ref = Ref(sets[0] | sets[2], sets[1] | sets[3], counts, 10, 9, 1, 30)
                    what = 'predictors %r in order %r' % ([sorted(x) for x in sets], [os.path.basename(x) for x in h] if isinstance(h, list) else 'a alone')
                    got, want = ex.predict('사과', 0.3), ref.predict('사과', 0.3)
                    rec.step()
                    rec.check(got[0] == want[0] and abs(got[1] - want[1]) < 1e-9, '%s: predict(사과) is %r, reference %r', what, got, want)
                    rec.state(roles)
            finally:
                shutil.rmtree(d)
        rec.trace()
        rec.outcome('ok')

    # -- long nouns and long features
    letters = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'

    def run_longwords(case, rec):
        k, m, li = case
        noun = letters[:k]
        feat = '에서조차까지도만큼이야'[:m]
        pos, neg = frozenset(['가', '나', '은', feat, feat + '요']), frozenset(['다'])
        kws = [dict(), dict(postprocessing='detaching_features'), dict(max_left_length=6, max_right_length=4), dict(max_left_length=15, max_right_length=2), dict(postprocessing=('ignore_NJ', 'detaching_features'))]
        words = [noun + '가', noun + '나', noun + feat + '가', noun + feat + '나', noun + feat, noun + feat + '요', noun + '은' + '가', noun[:-1] + '가', noun + noun + '가', noun + noun[:2] + '나']
        for v in itertools.product((0, 2), repeat=len(words)):
            counts = dict(zip(words, v))
            for e, c in (('AB가', 1), ('AB나', 3)):
                counts[e] = counts.get(e, 0) + c
            rec.state((k, m, li, v))
            one(pos, neg, counts, rec, kw=kws[li], full=sum(v) % 8 == 0, extra=(noun, noun + feat))

    # -- nouns of one syllable: only their own and feature eojeols are taken
    def run_syllable(case, rec):
        kwi, first = case
        words = ['A', 'A가', 'A나', 'A은', 'A다', 'ABC', 'AD', 'AD가', 'AD나', 'AE가']
        kw = [dict(), dict(min_num_of_features=0), dict(postprocessing=('ignore_features',), max_left_length=2)][kwi]
        for rest in itertools.product((0, 1, 3), repeat=len(words) - len(first) - (0 if deep else 2)):
            counts = dict(zip(words, tuple(first) + rest))
            if not deep:
                counts.update({'AD나': 1, 'AE가': 2})
            for reset in (False, True):
                rec.state((kwi, tuple(sorted(counts.items())), reset))
                one(frozenset(['가', '나', '은']), frozenset(['다', '은']), counts, rec, kw=kw, reset=reset, full=True)

    # -- compounds of three nouns with scores of their own
    def run_three(case, rec):
        a, b, c, ms = case
        base = {'AB가': 3, 'AB나': 2, 'AB다': a, 'CD가': 3, 'CD나': 2, 'CD다': b, 'EF가': 3, 'EF나': 2, 'EF다': c}
        comps = [''.join(p) for p in itertools.permutations(('AB', 'CD', 'EF'))] + ['ABCDEFAB', 'ABABCD', 'CDEFEF가', 'ABEFCD에서']
        for bits in itertools.product((0, 1), repeat=len(comps)):
            counts = dict(base)
            counts.update({w: x * (1 + i % 3) for i, (w, x) in enumerate(zip(comps, bits))})
            rec.state((tuple(case), bits))
            one(cpos, cneg, counts, rec, min_score=ms, full=sum(bits) == 3)

    # -- large corpora, large counts, messages and logs on
    def run_scale(case, rec):
        kind, how, logging = case
        d = tempfile.mkdtemp()
        try:
            kw = dict(verbose=True, logpath=d + '/log') if logging else {}
            if kind == 'nouns':
                # 24*23 nouns, with two to four features each, and 1,100 compounds
                alphabet = 'ABCDEFGHIJKLMNOPQRSTUVWX'
                nouns = [a + b for a in alphabet for b in alphabet if a != b]
                counts = {}
                for i, n in enumerate(nouns):
                    for j, f in enumerate(('가', '나', '은', '에서', '다')):
                        c = (i * 7 + j * 3) % 4
                        if c:
                            counts[n + f] = c
                    if i % 3:
                        counts[n] = i % 3
                for i, n in enumerate(nouns):
                    for k in (1, 7):
                        counts[n + nouns[(i * 5 + k) % len(nouns)] + ('' if (i + k) % 2 else '가')] = 1 + i % 2
                one(cpos, cneg, counts, rec, kw=kw, how=how, full=False)
                one(cpos, cneg, counts, rec, kw=kw, how=how, full=False, min_freq=3, reset=False)
            elif kind == 'features':
                # one word before 1,500 eojeols, half of them features
                fs = [a + b for a in gen_chars for b in gen_chars][:1500]
                pos, neg = frozenset(fs[:500] + ['가']), frozenset(fs[400:900])
                for m in (1, 50, 899):
                    counts = {'AB' + f: 1 + i % 3 for i, f in enumerate(fs)}
                    counts.update({'AB': 5, 'CD' + fs[0]: 4, 'CD가': 2, 'ABCD': 3})
                    one(pos, neg, counts, rec, kw=dict(kw, min_num_of_features=m), how=how, full=False, extra=('AB',))
            else:
                # counts over six orders of magnitude
                base = ['AB가', 'AB나', 'AB다', 'AB', 'ABCD', 'CD가', 'CD나', 'ABCD가', 'ABE']
                for exps in itertools.product((0, 3, 6), repeat=4):
                    for shift in (0, 1, 2):
                        counts = {w: (3 + i) * 10 ** exps[(i + shift) % 4] for i, w in enumerate(base)}
                        rec.state((exps, shift))
                        one(cpos, cneg, counts, rec, kw=kw, how=how, full=shift == 0, extra=('AB', 'CD'))
                        one(cpos, cneg, counts, rec, kw=kw, how=how, full=False, min_freq=10 ** 4)
                        # what two corpora of unequal size give does not mix
                        one(cpos, cneg, {w: 1 + c % 7 for w, c in counts.items()}, rec, kw=kw, how=how, full=False)
            rec.state(tuple(case))
        finally:
            cache.clear()
            shutil.rmtree(d)
        rec.sample(case)
    gen_chars = [chr(ord('가') + 28 * i + 3) for i in range(40)]

    # -- sentences are counted as an eojeol counter with the same options counts them
    def run_counting(case, rec):
        minc, check, norm, ml, mr = case
        from soynlp.normalizer import normalize_sent_for_lrgraph
        words = ['AB가', 'AB나', 'AB', 'CD은', 'CD가요', 'ABCDE가나', 'AB,가', 'AB가.', '12가', 'AB나']
        for v in itertools.product((0, 1, 3), repeat=6):
            sents = [' '.join(words[(i + j) % 10] for j in range(2 + i % 3)) for i, c in enumerate(v) for _ in range(c)]
            if not sents:
                continue
            kw = dict(max_left_length=ml, max_right_length=mr, eojeol_counter_filtering_checkpoint=check, ensure_normalized=norm)
            ex = extractor(cpos, cneg, kw)
            counter = EojeolCounter(sents, min_count=minc, max_length=ml + mr, filtering_checkpoint=check, **(dict(preprocess=normalize_sent_for_lrgraph) if norm else {}))
            want = {(l, r): c for l, rs in counter.to_lrgraph(ml, mr)._lr.items() for r, c in rs.items()} if hasattr(counter.to_lrgraph(ml, mr), '_lr') else None
            a = dict(ex.train_extract(sents, 0.3, 1, minc))
            graph = ex.lrgraph
            if want is not None:
                compare_graph(graph, want, 'graph from sentences %r (min_count=%r, checkpoint=%r, normalize=%r)' % (sents, minc, check, norm), rec)
            b = dict(ex.train_extract(counter, 0.3, 1))
            rec.equal(a, b, 'nouns of sentences %r with min_eojeol_frequency=%r, checkpoint=%r, ensure_normalized=%r, against those of the same counter' % (sents, minc, check, norm))
            rec.state((tuple(case), v))
            rec.step()
        rec.trace()
        rec.outcome('ok')

    # -- features that reach far into the word
    def run_reach(case, rec):
        n, e = case
        word = letters[:n]
        for r in ('가', '나다', '가나다라'):
            for role, longer in itertools.product(range(4), range(1, 4)):
                for x in ('', 'Z', word[e - 1:e]):
                    # x + the end of the word + r is a feature; it ends the word only if x is empty or what stands there
                    f = x + word[e:] + r
                    pos = frozenset(['은', '도'] + [r] * (role & 1) + [f] * (longer & 1))
                    neg = frozenset(['다'] + [r] * (role >> 1) + [f] * (longer >> 1))
                    for c, end in ((3, 0), (1, 2)):
                        counts = {word + r: c, word + '은': 2, word: end, word + '다': 1, word + '도': 1}
                        rec.state((n, e, r, role, longer, x, c))
                        one(pos, neg, counts, rec, kw=dict(max_left_length=12, max_right_length=6), full=False, extra=(word, word[:-1] or 'A'))
                    cache.clear()

    # -- every particle of the list after a noun
    def run_particles(case, rec):
        k, n, ctx = case
        js = sorted(josa)[k::40]
        noun = letters[:n]
        for j in js:
            for m in (4, 5, 6):
                base = [x for x in sorted(josa) if x not in (j,) and len(x) <= 3][k:k + m]
                if ctx:
                    base = base[:-1] + [j]
                counts = {noun + x: 2 for x in base}
                counts.update({noun + '가': 5, noun + '나': 3, noun + j + '가': 1, noun + j + '나': 2, noun + 'Z' + j + '가': 1})
                rec.state((j, n, m, ctx))
                one(ppos, pneg, counts, rec, kw=dict(postprocessing='ignore_NJ', max_left_length=12), full=False)

    return [
        Harness('long features', run_reach, [[n, e] for n in range(1, 13 if deep else 10) for e in range(n)], about='R parts of which a longer feature, reaching back any number of characters, ends the word (or almost)', bound='words of 1-9 characters, features of all roles'),
        Harness('particles', run_particles, [[k, n, c] for k in range(40) for n in (2, 4) for c in (0, 1)], about='each of the %d particles after a noun that takes 4, 5 or 6 of them' % len(josa), bound='every particle'),
        Harness('scale', run_scale, [[k, h, lg] for k in ('nouns', 'features', 'counts') for h in (('dict', 'counter', 'sents') if k == 'nouns' else ('dict', 'counter') if k == 'features' else ('dict',)) for lg in (False, True)], about='a corpus of 2,700 eojeols with 552 candidate nouns and 1,100 compounds; a word before 1,500 R parts; counts over six orders of magnitude; messages and log files on and off', bound='18 large corpora, 243 count vectors'),
        Harness('counting', run_counting, [[m, c, n, ml, mr] for m in (1, 2, 4) for c in (500000, 2) for n in (False, True) for ml, mr in ((10, 9), (3, 2))], about='sentences with every minimum eojeol count, checkpoint and normalization, against an eojeol counter made with the same options', bound='3^6 corpora'),
        Harness('predictors', run_headers, [[r] for r in range(16)], about='every distribution of three features over the positive and negative lists of two predictors, both orders', bound='16^3'),
        Harness('long words', run_longwords, [[k, m, li] for k in ((2, 3, 5, 8) if not deep else range(2, 11)) for m in ((2, 4, 7) if not deep else range(2, 11)) for li in range(5)], about='nouns of 2-8 and features of 2-7 characters, every presence of the composed words', bound='2^10 corpora'),
        Harness('one syllable', run_syllable, [[k, list(f)] for k in range(3) for f in itertools.product((0, 1, 3), repeat=3)], about='every count vector around a noun of one syllable, with and without reset', bound='counts {0,1,3}'),
        Harness('three-part compounds', run_three, [[a, b, c, ms] for a in (0, 1, 2) for b in (0, 1, 2) for c in (0, 1, 2) for ms in ((0.3, 0.7) if deep else (0.3,))], about='compounds of three nouns of different score', bound='2^10 corpora x 27 scores'),
        Harness('predict', run_predict, [[f, m, x, a] for f in range(len(feats)) for m in (0, 1, 2) for x in (1, 30) for a in (0, 1, 3)], about='all counts of seven R parts of one word x four feature sets x exception limits', bound='counts {0,1,3} (end also 31)'),
        Harness('nested', run_nested, [[f, list(a), k] for f in range(4) for a in itertools.product([0, 1, 3], repeat=3) for k in range(3)], about='all counts over nested candidates A, AB, ABC, ABCD', bound='11 eojeols'),
        Harness('compounds', run_compound, [[list(a), mf, k] for a in itertools.product([0, 1, 3], repeat=5 if deep else 4) for mf in (1, 2) for k in range(4)], about='all counts of ten composed eojeols over four known nouns', bound='counts {0,1,3}'),
        Harness('postprocessing', run_post, [[i, h, 0] for i in range(len(lists)) for h in (1, 5)] + [[i, 1, 1] for i, l in enumerate(lists) if "ignore_features" in l and (deep or len(l) != 2)], about='all postprocessing lists (every selection and order) x presence of noun+feature and noun+particle words', bound='2^8 corpora'),
        Harness('input kinds', run_real, [[list(a), how, reset] for a in itertools.product([0, 1], repeat=5) for how in ('sents', 'counter', 'graph') for reset in (True, False)], about='default predictor, real particles; sentences, counter and graph; with and without reset; remaining graph compared', bound='15 eojeols'),
    ]
