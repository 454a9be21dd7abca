"""P36: StemExtractor."""
import itertools
import math

from mc import conj, gen
from mc.core import Harness
from mc.props.p14 import compare_graph

PROP = dict(
    id='P36',
    title='The stem extractor finds exactly the stems that known endings justify',
    statement=(
        'For all stems, endings and L-R graphs of Hangul eojeols, the stem extractor takes as known L and R parts the two parts of every eojeol that is a longer conjugation of a known stem and a known ending, cut after as many characters as the stem has. '
        'It scores an L part by (pos-neg)/(pos+neg) over the counts of its R parts, leaving out 거나 게 게는 게도 고 고도 고만 는 다 다가 서는 아 은: known R parts are positive, the empty R part, R parts that are a known L part and a known R part, and R parts that some end of L extends to a known R part are negative, the others unknown; the frequency is pos if the score reaches the minimum and neg+unknown otherwise. Score and frequency are 0 if too few different characters follow L or if the entropy of its positive R parts (not those that are also known L and R, or extended by L) is too low, and the score is 0 below the minimum frequency. '
        'Of the unknown L parts before known R parts (at least the minimum number of times, two or more characters, not ending in 다, no known R part, not ignored) those that reach both minima are stem surfaces, without those that begin with a known or found L part and a known R part, and those that begin with another one found. '
        'The stems are those of the lemmas with a known ending of these surfaces and their R parts, with the summed count and the count-weighted mean score. Graph and sets stay as they were. '
        'The predicator extractor then treats such stems like known ones; their eojeols are verbs if the stem ends in 거리 당하 당허 시키, adjectives if in 같 답 롭 만하 스럽 시럽 이 아니, and otherwise verbs only if two or more of the present (ㄴ다 ㄴ다고 or, after a final consonant, 는다 는다고; 고있는), imperative (어라 after ㅓ or ㅕ, otherwise 아라) and propositive (자 ㄹ까 ㄹ까봐 까 까봐 을까 을까봐) forms are predicators found.'),
    quantifier=dict(over=['inputs', 'configurations'], text='all graphs, stems, endings and thresholds'),
    why_tests_cant='No test calls the stem extractor at all.',
    anchors=dict(files=['soynlp/predicator/_stem.py', 'soynlp/predicator/_predicator.py', 'soynlp/predicator/_adjective_vs_verb.py'],
                 mechanism=[dict(name='StemExtractor.predict / extract / _post_processing / _to_stem', where='soynlp/predicator/_stem.py'),
                            dict(name='_separate_adjective_verb', where='soynlp/predicator/_predicator.py')],
                 state=[dict(name='L, R', meaning='known surfaces of stems and endings', where='soynlp/predicator/_stem.py')],
                 observe_at=['StemExtractor.predict', 'StemExtractor.extract', 'stem_surfaces', 'removals', 'PredicatorExtractor.train_extract with extract_stem'], hook_needed=None))

CHECK = dict(
    technique='bounded-exhaustive enumeration of eojeol counts x thresholds on the real extractor against an independent reference of all stages',
    level_note='All count vectors over the R parts of one L part, one of each kind that the statement distinguishes, with every threshold around the occurring values; all count vectors over fixed universes of nesting candidates; all subsets of eojeols for the predicator extractor. Conjugations and the lemma candidates of one cut are taken from the code and bound by P22-P24.',
    assumptions=['all eojeols are complete Hangul'])

PARTICLES = set('거나 게 게는 게도 고 고도 고만 는 다 다가 서는 아 은'.split())
EPS = 1e-9


def known_parts(counts, stems, eomis, conjugate):
    ls, rs = set(), set()
    for s in stems:
        for e in eomis:
            for w in conjugate(s, e):
                if counts.get(w, 0) > 0 and len(w) > len(s):
                    ls.add(w[:len(s)])
                    rs.add(w[len(s):])
    return ls, rs


class Model:
    def __init__(self, counts, stems, eomis, conjugate, n_chars, entropy):
        self.counts = {w: c for w, c in counts.items() if c > 0}
        self.starts = {}
        for w in self.counts:
            for i in range(1, len(w) + 1):
                self.starts.setdefault(w[:i], []).append(w)
        self.eomis = eomis
        self.n_chars, self.min_entropy = n_chars, entropy
        self.L, self.R = known_parts(self.counts, stems, eomis, conjugate)

    def rights(self, l):
        return {w[len(l):]: self.counts[w] for w in self.starts.get(l, ())}

    def predict(self, l, ms, mf):
        """(score, frequency), or None if a value is too close to a threshold."""
        rights = self.rights(l)
        pos = neg = unk = 0
        spread = []
        for r, c in rights.items():
            if r in PARTICLES:
                continue
            two = any(r[:i] in self.L and r[i:] in self.R for i in range(1, len(r)))
            longer = any(l[i:] + r in self.R for i in range(len(l)))
            if r and r in self.R:
                pos += c
                if not two and not longer:
                    spread.append(c)
            elif not r or two or longer:
                neg += c
            else:
                unk += c
        score = (pos - neg) / (pos + neg) if pos + neg else 0
        freq = pos if score >= ms else neg + unk
        total = sum(spread)
        h = -sum(c / total * math.log(c / total) for c in spread) if total and len(spread) > 1 else 0
        if len({r[0] for r in rights if r}) < self.n_chars:
            return 0, 0
        if h and abs(h - self.min_entropy) < EPS:
            return None
        if h < self.min_entropy:
            return 0, 0
        return (score if freq >= mf else 0), freq

    def surfaces(self, ms, mf, ignore=()):
        found = {}
        seen = {w[:i] for w in self.counts for i in range(1, len(w))}
        for l in seen:
            c = sum(c for r, c in self.rights(l).items() if r in self.R)
            if not c or c < mf or l in self.L or l in self.R or l in ignore or len(l) == 1 or l[-1] == '다':
                continue
            p = self.predict(l, ms, mf)
            if p is None:
                return None
            if p[0] >= ms and p[1] >= mf:
                found[l] = p
        bad = set()
        for l in found:
            n = len(l)
            if any((l[:i] in self.L or l[:i] in found) and any(l[i:j] in self.R for j in range(i + 1, n + 1)) for i in range(1, n)):
                bad.add(l)
            if any(l[:i] in found for i in range(2, n)):
                bad.add(l)
        return {l: p for l, p in found.items() if l not in bad}, bad

    def stems(self, surfaces, lemma_candidate):
        sums = {}
        for l, (score, _) in surfaces.items():
            for r, c in self.rights(l).items():
                try:
                    lemmas = lemma_candidate(l, r)
                except Exception:
                    continue
                for stem, eomi in lemmas:
                    if eomi in self.eomis:
                        f, t = sums.get(stem, (0, 0.0))
                        sums[stem] = (f + c, t + c * score)
        return {s: (f, t / f) for s, (f, t) in sums.items()}


def harnesses(tier):
    from soynlp.predicator import StemExtractor, PredicatorExtractor
    from soynlp.lemmatizer import conjugate, lemma_candidate
    from soynlp.utils import EojeolCounter, LRGraph
    deep = tier == 'thorough'

    def graph_of(counts):
        if sum(counts.values()) > 2000 or any(len(w) > 9 for w in counts):
            pairs = {}
            for w, c in counts.items():
                for i in range(1, len(w) + 1) if c else ():
                    pairs.setdefault(w[:i], {})[w[i:]] = c
            return LRGraph(pairs)
        return EojeolCounter([' '.join(w for w, c in counts.items() for _ in range(c))]).to_lrgraph()

    def near(a, b):
        return a == b or abs(a - b) < EPS

    def table_same(got, want, what, rec):
        rec.step()
        rec.check(set(got) == set(want) and all(near(got[k][0], want[k][0]) and near(got[k][1], want[k][1]) for k in want),
                  '%s: implementation gives %r, reference gives %r', what, {k: tuple(v) for k, v in got.items()}, want)

    # -- the score of one L part
    stems0, eomis0 = {'먹'}, {'고', '지', '네', '시네', '시던', '니까', '거나', '은', '었다', '자네'}
    base = {'먹' + e: 1 for e in ('고', '지', '네', '시네', '시던', '니까', '거나', '은', '었다', '자네')}
    kinds = ['지', '네', '니까', '', '먹네', '던', '라며', '거나', '고']

    def run_predict(case, rec):
        l, first = case
        last = (0, 1, 4) if deep else (0, 2)
        for rest in itertools.product(last, repeat=len(kinds) - len(first)):
            v = tuple(first) + rest
            counts = dict(base)
            for r, c in zip(kinds, v):
                if c:
                    counts[l + r] = counts.get(l + r, 0) + c
            g = graph_of(counts)
            pos = sum(c for r, c in zip(kinds, v) if r in ('지', '네', '니까'))
            rest_ = sum(v) - pos
            for k, h in ((1, 0.0), (3, 0.0), (4, 0.5), (5, 0.65), (1, 1.0)):
                m = Model(counts, stems0, eomis0, conjugate, k, h)
                ex = StemExtractor(g, set(stems0), set(eomis0), min_num_of_unique_R_char=k, min_entropy_of_R_char=h, verbose=False)
                if k == 1 and h == 0.0:
                    rec.equal((ex.L, ex.R), (m.L, m.R), 'known parts of %r' % (counts,))
                for ms, mf in ((0.7, 1), (0.0, 2), (0.5, pos), (0.5, pos + 1), (1.0, rest_), (-0.5, rest_ + 1), (0.2, 3)):
                    want = m.predict(l, ms, mf)
                    if want is None:
                        continue
                    got = ex.predict(l, min_stem_score=ms, min_frequency=mf)
                    rec.step()
                    rec.check(near(got[0], want[0]) and got[1] == want[1], 'predict(%r, %r, %r) with R counts %r, %d characters, entropy %r: implementation gives %r, reference gives %r', l, ms, mf, dict(zip(kinds, v)), k, h, got, want)
                    rec.outcome(want[0] > 0)
                if k == 1 and h == 0.0:
                    got, want = ex.predict(l), m.predict(l, 0.7, 1)
                    rec.check(near(got[0], want[0]) and got[1] == want[1], 'predict(%r) with R counts %r: implementation gives %r, reference gives %r', l, dict(zip(kinds, v)), got, want)
            rec.state((l, v))
            rec.trace()
        rec.sample(case)

    # -- extraction
    def one(counts, stems, eomis, k, h, ms, mf, ignore, rec, full=True, verbose=False):
        counts = {w: c for w, c in counts.items() if c}
        g = graph_of(counts)
        m = Model(counts, stems, eomis, conjugate, k, h)
        want = m.surfaces(ms, mf, ignore or ())
        if want is None:
            return
        what = 'counts=%r stems=%r endings=%r min_num_of_unique_R_char=%d min_entropy_of_R_char=%r min_stem_score=%r min_stem_frequency=%r L_ignore=%r' % (counts, sorted(stems), sorted(eomis), k, h, ms, mf, ignore)
        given, givene = set(stems), set(eomis)
        ex = StemExtractor(g, given, givene, min_num_of_unique_R_char=k, min_entropy_of_R_char=h, verbose=verbose)
        for again in range(2 if full else 1):
            got = ex.extract(L_ignore=ignore, min_stem_score=ms, min_stem_frequency=mf)
            table_same(ex.stem_surfaces, want[0], 'stem surfaces of ' + what, rec)
            rec.equal(set(ex.removals), want[1], 'removed surfaces of ' + what)
            table_same(got, m.stems(want[0], lemma_candidate), ('stems of ' if not again else 'second extraction of stems of ') + what, rec)
        if full:
            rec.equal((given, givene), (set(stems), set(eomis)), 'sets given, after ' + what)
            pairs = {(w[:i], w[i:]): c for w, c in counts.items() for i in range(1, len(w) + 1)}
            compare_graph(g, pairs, 'graph after ' + what, rec)
        rec.outcome(len(want[0]))
        rec.trace()

    eomis1 = {'고', '지', '던', '면서', '았다', '아서', '지만'}
    fixed = {'먹고': 3, '먹지': 2, '먹던': 1, '먹면서': 1, '잡아서': 1, '잡았다': 1}
    nest = ['마시지', '마시던', '마시면서', '마시지던', '마시지면서', '마시우지', '마시우던', '가던', '먹지지', '먹지던', '사다지', '사다던']

    def run_nest(case, rec):
        first, k, h = case
        menu = (0, 1, 3) if deep else (0, 2)
        for rest in itertools.product(menu, repeat=len(nest) - len(first)):
            v = tuple(first) + rest
            counts = dict(fixed)
            counts.update(zip(nest, v))
            rec.state((v, k, h))
            n = gen.mix(sum(c << (2 * i) for i, c in enumerate(v)))
            one(counts, {'먹', '잡'}, eomis1, k, h, (0.7, 0.2, 0.0, 1.0)[n % 4], 1 + n // 4 % 4, (None, {'마시'}, {'마시지', '사'})[n // 16 % 3], rec, full=n % 8 == 0)
        rec.sample(case)

    # -- L parts that contain known L and R parts anywhere: every string over two known and two unknown L parts and two R parts
    def run_inner(case, rec):
        head, other = case
        known = dict(fixed)
        for n in range(1, 4 if deep else 3):
            for t in itertools.product('먹잡고지싶우', repeat=n):
                l = head + ''.join(t)
                counts = dict(known)
                for w in [l] + other:
                    for j, r in enumerate(('던', '면서', '지만', '고')):
                        counts[w + r] = counts.get(w + r, 0) + 1 + j
                rec.state((l, tuple(other)))
                one(counts, {'먹', '잡'}, eomis1, 1, 0.0, (0.7, 0.2)[len(l) % 2], 1, None, rec, full=False)
        rec.sample(case)

    # -- positive R parts that are also a known L and R part, or extended by the end of L, do not count for the entropy
    def run_both(case, rec):
        l, first = case
        tails = ['지', '네', '자네', '자고', '시네', '니까', '먹네']
        counts0 = {'먹' + e: 1 for e in ('지', '네', '자네', '시네', '니까', '자고', '고')}
        counts0.update({'자네': 2, '자고': 1})
        eomis = {'지', '네', '자네', '시네', '니까', '자고', '고'}
        for rest in itertools.product((0, 1, 4) if deep else (0, 2), repeat=len(tails) - len(first)):
            v = tuple(first) + rest
            counts = dict(counts0)
            for r, c in zip(tails, v):
                if c:
                    counts[l + r] = counts.get(l + r, 0) + c
            g = graph_of(counts)
            for h in (0.0, 0.4, 0.68, 1.0, 1.2):
                m = Model(counts, {'먹', '자'}, eomis, conjugate, 1, h)
                ex = StemExtractor(g, {'먹', '자'}, set(eomis), min_num_of_unique_R_char=1, min_entropy_of_R_char=h, verbose=False)
                want = m.predict(l, 0.2, 1)
                if want is None:
                    continue
                got = ex.predict(l, min_stem_score=0.2, min_frequency=1)
                rec.step()
                rec.check(near(got[0], want[0]) and got[1] == want[1], 'predict(%r, 0.2, 1) with R counts %r, stems 먹 자, entropy %r: implementation gives %r, reference gives %r', l, dict(zip(tails, v)), h, got, want)
                rec.outcome(want[0] > 0)
            rec.state((l, v))
            rec.trace()
        rec.sample(case)

    # -- from surfaces to stems: irregular stems with several surfaces and shared stems
    pieces = ['도와서', '도왔다', '돕지', '돕고', '돕', '흘러서', '흘렀다', '흐르지', '흐르던', '걸어서', '걷지', '걸었다', '도우면', '아름다워', '아름답지', '아름답']

    def run_lemma(case, rec):
        hi, k, h, ms = case
        known = {'먹고': 2, '먹지': 2, '먹던': 1, '먹어서': 1, '먹었다': 1, '먹으면': 1, '잡아': 1, '잡아서': 1, '잡았다': 2, '가서': 1, '갔다': 1, '가면': 2, '나서': 1, '가': 1}
        for lo in range(256):
            mask = hi << 8 | lo
            counts = dict(known)
            for i, w in enumerate(pieces):
                if mask >> i & 1:
                    counts[w] = 1 + i % 3
            rec.state(mask)
            one(counts, {'먹', '잡', '가', '나'}, {'고', '지', '던', '어서', '었다', '으면', '아', '어', '아서', '았다', '면'}, k, h, ms, 1 + mask % 2, None, rec, full=mask % 16 == 0)
        rec.sample(case)

    # -- thousands of eojeols, over a hundred stems, counts over six orders of magnitude, messages on
    def run_scale(case, rec):
        kind, variant, verbose = case
        tails2 = ['고', '지', '던', '면서', '았다', '아서', '지만', '네', '니까', '더라', '거나', '자', '려고', '는데', '습니다']
        if kind == 'many':
            syl = '가먹하보나막잡찾들날걷돕'
            all_ = [a + b for a in syl for b in syl if a != b]
            stems, new = set(all_[::2]), all_[1::2]
            counts = {}
            for i, s in enumerate(all_):
                for j, t in enumerate(tails2):
                    c = (i * 7 + j * 5 + variant) % 4
                    if c and (i % 5 or j < 6):
                        counts[s + t] = c
                if i % 6 == 0:
                    counts[s] = 9
                    counts[s + '시' + tails2[i % 15]] = 2
            for k, h, ms, mf in ((3, 0.5, 0.7, 3), (8, 1.5, 0.3, 10)):
                for ignore in (None, set(new[:20])):
                    rec.state((kind, variant, k, bool(ignore)))
                    one(counts, stems, set(tails2[:11]), k, h, ms, mf, ignore, rec, full=False, verbose=verbose)
        elif kind == 'endings':
            more = [a + b for a in '고니지면서요네까라던도만을' for b in '가나다라마바사아자차카타파하거너더러머버서어저처커터퍼허고노도로모보소오조초코토포호']
            counts = {'먹' + t: 1 for t in more}
            for i, l in enumerate(('볶아', '누르', '나무', '마시')):
                for j, t in enumerate(more):
                    if (i + j + variant) % (i + 2) == 0:
                        counts[l + t] = 1 + j % 3
                    elif i == 2:
                        counts[l + t + '요'] = 2
            for k, h, ms, mf in ((10, 0.5, 0.7, 100), (13, 5.0, 0.1, 20), (3, 0.0, 0.0, 1)):
                rec.state((kind, variant, k))
                one(counts, {'먹'}, set(more[:400]), k, h, ms, mf, None, rec, full=False, verbose=verbose)
        elif kind == 'long':
            for n in range(2, 11):
                new = ('마시누르볶이나무라거' * 2)[:n]
                tail = ('지만서도그러하였던것이었다' * 2)[:n + variant]
                counts = dict({w: 1 for w in ('먹고', '먹지', '먹던', '먹' + tail)}, **{new + '고': 2, new + '지': 3, new + tail: 2, new + '던': 1, new[:-1] + '지': 1, new + new[:2] + '던': 1})
                for ms in (0.7, 0.2):
                    rec.state((kind, variant, n, ms))
                    one(counts, {'먹'}, {'고', '지', '던', tail}, 2, 0.0, ms, 1, None, rec, verbose=verbose)
        else:
            for exps in itertools.product((0, 3, 6), repeat=4):
                counts = {w: (2 + i + variant) * 10 ** exps[i % 4] for i, w in enumerate(('먹고', '먹지', '먹던', '마시지', '마시던', '마시', '마시면서', '누르지', '누르던'))}
                counts['먹면서'] = 1
                for h, ms, mf in ((0.0, 0.7, 1), (0.3, 0.2, 10 ** 4)):
                    rec.state((kind, variant, exps, ms))
                    one(counts, {'먹'}, eomis1, 2, h, ms, mf, None, rec, full=exps[0] == 3, verbose=verbose)
        rec.sample(case)

    # -- inside the predicator extractor
    adj, verb = ('같', '답', '롭', '만하', '스럽', '시럽', '이', '아니'), ('거리', '당하', '당허', '시키')

    def kind_of(stem, words):
        if stem[-1:] in adj or stem[-2:] in adj:
            return 'a'
        if stem[-1:] in verb or stem[-2:] in verb:
            return 'v'
        open_ = (ord(stem[-1]) - 0xAC00) % 28 == 0
        forms = []
        vowel = (ord(stem[-1]) - 0xAC00) // 28 % 21
        for e in [('ㄴ다' if open_ else '는다'), ('ㄴ다고' if open_ else '는다고'), '고있는', '어라' if vowel in (4, 6) else '아라', '자', 'ㄹ까', 'ㄹ까봐', '까', '까봐', '을까', '을까봐']:
            forms.extend(conjugate(stem, e))
        return 'v' if len({f for f in forms if f in words}) >= 2 else 'a'

    tails = ['고', '지', '던', '는다', '자', '고있는', '면서', '니까']
    eomis3 = {'고', '지', '던', '는다', 'ㄴ다', '자', '고있는', '면서', '니까', '까', '았다', '었다'}
    unknown = ['어루만지', '수그러볶', '찌르', '둥글', '헐겁', '반짝거리', '꽃답', '무시당하', '해롭', '뒹굴', '볶', '멋스럽', '만하']

    def run_predicator(case, rec):
        stem, eomi_too = case
        for mask in range(256):
            counts = {'먹' + t: 2 for t in tails}
            counts['간다'.replace('간', '간')] = 1
            for i, t in enumerate(tails):
                if mask >> i & 1:
                    counts[stem + t] = 1 + i % 2
            if mask % 3 == 0:
                for w in conjugate(stem, 'ㄴ다'):
                    counts[w] = 1
            if mask % 5 == 0:
                counts['책' + stem + '고'] = 1
                counts['나무' + '고'] = 1
            rec.state((stem, mask, eomi_too))
            inside(counts, 1 + mask % 3, 1 + mask // 3 % 4, eomi_too, eomis3, rec)
        rec.sample(case)

    def inside(counts, mf, k, eomi_too, eomis3, rec):
            known = {'먹', '가'}
            rest = {w: c for w, c in counts.items() if not any(w[:e] in {'나무'} for e in range(2, len(w) + 1))}
            what = 'stems in the predicator extractor: counts=%r min_stem_frequency=%d min_num_of_unique_R_char=%d extract_eomi=%r' % (counts, mf, k, eomi_too)
            args = dict(min_num_of_unique_R_char=k, min_entropy_of_R_char=0.0, min_stem_score=0.5, min_stem_frequency=mf, min_num_of_features=1, min_eomi_score=0.1, min_eomi_frequency=1)
            sents = [' '.join(w for w, c in counts.items() for _ in range(c))]
            kw = dict(josas={'는'}, adjectives=set(), verbs=set(known), verbose=False)
            ex = PredicatorExtractor({'나무'}, eomis=set(eomis3), extract_eomi=eomi_too, extract_stem=True, **kw)
            got = ex.train_extract(sents, min_eojeol_frequency=1, **args)
            eomis = set(eomis3)
            if eomi_too:
                twin = PredicatorExtractor({'나무'}, eomis=set(eomis3), extract_eomi=True, **kw)
                twin.train(sents, min_eojeol_frequency=1, **args)
                # what the twin knows as endings now: its collections that include the given endings
                eomis = set().union(*(x for x in vars(twin).values() if isinstance(x, (set, frozenset)) and x >= set(eomis3)))
            m = Model(rest, known, eomis, conjugate, k, 0.0)
            surf = m.surfaces(0.5, mf)
            if surf is None:
                return
            new = set(m.stems(surf[0], lemma_candidate))
            plain = PredicatorExtractor({'나무'}, josas={'는'}, adjectives=set(), verbs=known | new, eomis=set(eomis), verbose=False)
            words = plain.train_extract(sents, min_eojeol_frequency=1)[1]
            want = ({}, {})
            for w, p in words.items():
                for stem_, e in p.lemma:
                    j = 1 if stem_ in known or kind_of(stem_, words) == 'v' else 0
                    want[j].setdefault(w, (p.frequency, set()))[1].add((stem_, e))
            rec.equal(tuple({w: (p.frequency, set(p.lemma)) for w, p in t.items()} for t in got), want, what)
            rec.outcome((len(new), len(got[0]) > 0))
            rec.trace()

    # every suffix that decides, and every form that counts, for stems of all shapes
    forms = ['는다', 'ㄴ다', '는다고', 'ㄴ다고', '고있는', '어라', '아라', '자', 'ㄹ까', 'ㄹ까봐', '까', '까봐', '을까', '을까봐']
    shapes = ['누르', '어울리', '머무', '그을', '켜', '버려', '건너', '어루맞', '멎', '옅', '두드려', '나뭇']
    shapes += ['나무' + x for x in adj + verb] + ['두르' + x for x in adj + verb] + list(adj + verb) + ['거리는', '스러', '시', '만', '이야', '답하', '당', '당하였', '같으']

    def run_forms(case, rec):
        stem, two = case
        for a, b in itertools.combinations_with_replacement(range(len(forms)), 2):
            for c in range(len(forms)) if two else (b,):
                if c < b:
                    continue
                counts = {'먹' + t: 2 for t in ('고', '지', '던')}
                counts.update({stem + t: 3 for t in ('고', '지', '던')})
                for e in {forms[a], forms[b], forms[c]}:
                    for w in conjugate(stem, e):
                        counts[w] = counts.get(w, 0) + 1
                rec.state((stem, a, b, c))
                inside(counts, 1, 2, False, {'고', '지', '던'} | set(forms), rec)

    def run_default(case, rec):
        """Default thresholds, counts around them."""
        n, c = case
        chars = '고지던네자면서니까며랑'
        eomis = set(chars) - {'고'}
        counts = {'먹' + r: 1 for r in eomis}
        for i, r in enumerate(chars[1:n + 1]):
            counts['마시' + r] = c
        counts = {w: x for w, x in counts.items() if x}
        for extra in (0, 1, c, 3 * c):
            full = dict(counts)
            if extra:
                full['마시'] = extra
            m = Model(full, {'먹'}, eomis, conjugate, 10, 0.5)
            ex = StemExtractor(graph_of(full), {'먹'}, set(eomis), verbose=False)
            want = m.surfaces(0.7, 100)
            if want is None:
                continue
            got = ex.extract()
            rec.state((n, c, extra))
            table_same(got, m.stems(want[0], lemma_candidate), 'stems by default of %r' % (full,), rec)
            rec.outcome(len(got))
            rec.trace()

    # -- L parts of one or two syllables that are endings elsewhere
    def run_short(case, rec):
        words = ['라고', '라지', '라던', '면지', '면던', '면', '마고', '마지', '먹라', '면서고', '면서지', '서던', '먹서']
        for bits in itertools.product((0, 1), repeat=len(words) - len(case)):
            b = tuple(case) + bits
            counts = {'먹고': 2, '먹지': 1, '먹던': 1}
            counts.update({w: 2 for w, x in zip(words, b) if x})
            rec.state(b)
            one(counts, {'먹'}, {'고', '지', '던', '라', '면', '면서', '서'}, 1, 0.0, 0.5, 1 + sum(b) % 3, None, rec, full=False)
        rec.sample(case)

    menu = (0, 1, 4) if deep else (0, 2)
    return [
        Harness('short', run_short, [list(b) for b in itertools.product((0, 1), repeat=5)], about='L parts of one and two syllables that are themselves endings', bound='2^13 corpora'),
        Harness('scale', run_scale, [[k, v, g] for k in ('many', 'endings', 'long', 'counts') for v in range(2 if not deep else 8) for g in (False, True)], about='110 L parts before 15 R parts, 4 L parts before 600 R parts, parts of up to 12 characters, counts over six orders of magnitude, messages on and off', bound='8 kinds x thresholds'),
        Harness('score', run_predict, [[l, list(f)] for l in ('마시', '먹', '시', '마먹시') for f in itertools.product((0, 1, 4), repeat=4)], chunk=2, about='all counts of nine kinds of R parts of one L part x thresholds', bound='counts {0,1,4} for four, %r for five R parts; 4 L parts; 35 settings' % (menu,)),
        Harness('both', run_both, [[l, list(f)] for l in ('마', '마시', '볶') for f in itertools.product((0, 1, 3), repeat=3)], chunk=2, about='all counts of R parts that are known and are also a known L and R part or extended by L, with thresholds of the entropy', bound='3 L parts x 3^3 x %d^4' % (3 if deep else 2)),
        Harness('inner', run_inner, [[h, o] for h in '먹잡고지싶우마' for o in ([], ['싶우'], ['마싶', '고우'])], chunk=1, about='L parts of two to %d syllables over known stems, endings and other syllables, next to other candidates' % (4 if deep else 3), bound='7 x 6^%d x 3' % (3 if deep else 2)),
        Harness('nested', run_nest, [[list(f), k, h] for f in itertools.product((0, 1, 3), repeat=3) for k, h in ((1, 0.0), (2, 0.3), (2, 0.7))], chunk=1, about='all counts of nesting, removed and forbidden candidates', bound='12 eojeols, counts {0,1,3} for three, {0,2} (thorough {0,1,3}) for nine'),
        Harness('lemmas', run_lemma, [[hi, k, h, ms] for hi in range(256) for k, h, ms in ((1, 0.0, 0.0), (1, 0.4, -1.0), (2, 0.6, 0.3)) if deep or gen.mix(hi * 3 + k + len(str(ms))) % 8 == 0], chunk=2, about='all presences of 16 eojeols of irregular stems', bound='2^16 x 3 settings%s' % ('' if deep else ' (a scattered eighth)')),
        Harness('predicator', run_predicator, [[s, e] for s in unknown for e in (False, True)], chunk=1, about='all presences of eight eojeols of an unknown stem in the predicator extractor', bound='2^8 x %d stems' % len(unknown)),
        Harness('forms', run_forms, [[s, t] for s in dict.fromkeys(shapes) for t in ((False, True) if deep else (False,))], chunk=1, about='stems with every deciding suffix and of every shape, with every pair of present, imperative and propositive forms', bound='%d stems x %d pairs (thorough: triples) of 14 forms' % (len(set(shapes)), 105)),
        Harness('default', run_default, [[n, c] for n in (8, 9, 10, 11) for c in (0, 1, 9, 10, 11, 12, 30)], about='default thresholds, counts around them', bound='11 endings'),
    ]
