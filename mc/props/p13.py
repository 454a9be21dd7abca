"""P13: the tag dictionary as a state machine."""
import itertools
import json
import os
import tempfile

from mc import gen
from mc.core import Harness

PROP = dict(
    id='P13',
    title='The tag dictionary behaves as a map from tags to word sets under all histories',
    statement=(
        'After every sequence of adding words to a tag (given as blank-separated text, list, tuple or set), removing words or a whole tag, saving and loading, the dictionary reports for each word exactly the tags it was added to and not removed from since, and membership queries agree with that. '
        'Adding to an unknown tag without force, and removing from an unknown tag, raise ValueError and change nothing; loading a saved file restores exactly the saved dictionary. '
        'The dictionary never changes the collections it was built from or given, later changes of those collections do not reach it, and words added later are found by a tagger built on it whatever their length.'),
    quantifier=dict(over=['histories', 'inputs'], text='all operation sequences and argument forms'),
    why_tests_cant='The only test builds one dictionary and tags one sentence; no add, remove, save or load is ever executed.',
    anchors=dict(files=['soynlp/postagger/_dictionary.py'], mechanism=[dict(name='add_words / remove_words / save / load', where='soynlp/postagger/_dictionary.py')],
                 state=[dict(name='tag to words', meaning='set of words per tag, and the longest word length', where='soynlp/postagger/_dictionary.py')],
                 observe_at=['get_pos', 'word_is_tag', 'save', 'load', 'SimpleTagger.tag'], hook_needed=None))

CHECK = dict(
    technique='explicit-state search over all operation sequences on the real dictionary, each state compared with a map-of-sets model',
    level_note='All operation sequences up to the stated depth over the listed operation menu (3 tags, 4 words, 4 argument forms), from three initial dictionaries.',
    assumptions=['words contain no whitespace when given as text'])

WORDS = ['가나', '다', '라마바사아', 'x']
TAGS = ['Noun', 'Josa', 'Verb']


def harnesses(tier):
    from soynlp.postagger import Dictionary, LRTemplateMatcher, LREvaluator, SimpleTagger, UnknowLRPostprocessor
    deep = tier == 'thorough'

    initials = [lambda: {}, lambda: {'Noun': {'가나'}, 'Josa': {'다'}}, lambda: {'Noun': ['가나', 'x'], 'Josa': ('다',), 'Verb': []}]
    menu = [
        ['add', 'Noun', '라마바사아 x', False], ['add', 'Noun', ['다'], False], ['add', 'Josa', ['x', '가나'], True],
        ['add', 'Verb', ['set', '다', '라마바사아'], False], ['add', 'Verb', ['tuple', 'x'], True], ['add', 'Noun', [], False],
        ['rm', 'Noun', ['가나', 'x']], ['rm', 'Noun', '라마바사아'], ['rm', 'Josa', ['set', 'x', '다']], ['rm', 'Verb', None], ['rm', 'Josa', None],
        ['saveload'], ['add', 'Josa', '다 다', False], ['rm', 'Noun', []], ['rm', 'Josa', ''], ['rm', 'Verb', ['set']],
    ]

    def arg(a):
        if isinstance(a, list):
            if a and a[0] == 'set':
                return set(a[1:]), set(a[1:])
            if a and a[0] == 'tuple':
                return tuple(a[1:]), set(a[1:])
            return list(a), set(a)
        if a is None:
            return None, None
        return a, set(a.split())

    def compare(d, model, what, rec):
        for w in WORDS + ['없음', '낡은', '아주오래되고낡은낱말']:
            want = sorted(t for t in model if w in model[t])
            rec.equal(sorted(d.get_pos(w)), want, '%s: tags of %r' % (what, w))
            for t in TAGS + ['Foo']:
                rec.equal(bool(d.word_is_tag(w, t)), w in model.get(t, ()), '%s: is %r a %s' % (what, w, t))

    def build(d):
        return SimpleTagger(LRTemplateMatcher(d), LREvaluator(), UnknowLRPostprocessor())

    def finds(tagger, model, what, rec):
        for w in WORDS:
            if len(w) >= 2:
                got = tagger.tag(w + '!')
                known = sorted(t for t in ('Noun', 'Verb') if w in model.get(t, ()))
                rec.step()
                if known:
                    rec.check(got[0][0] == w and got[0][1] in known, '%s: tagger finds %r in %r' % (what, got, w + '!'))
                else:
                    rec.check(got == [(w + '!', None)] or all(p != w for p, t in got if t), '%s: tagger reports %r' % (what, got))

    def run(case, rec):
        init, ops = case
        source = initials[init]()
        given = json.dumps({k: sorted(v) for k, v in source.items()}, sort_keys=True)
        kinds = {k: type(v) for k, v in source.items()}
        d = Dictionary(source)
        tagger = build(d)     # before the words are added
        model = {k: set(v) for k, v in source.items()}
        handed = []
        with tempfile.TemporaryDirectory() as tmp:
            for step, i in enumerate(ops):
                op = menu[i]
                what = 'after %r from %r' % ([menu[j] for j in ops[:step + 1]], given)
                if op[0] == 'add':
                    a, s = arg(op[2])
                    handed.append((a, s))
                    if op[1] not in model and not op[3]:
                        try:
                            d.add_words(op[1], a) if step % 2 else d.add_words(op[1], a, force=False)
                            rec.fail('%s: no ValueError for unknown tag' % what)
                        except ValueError:
                            rec.step()
                    else:
                        d.add_words(op[1], a, force=True) if op[3] else d.add_words(op[1], a)
                        model.setdefault(op[1], set()).update(s)
                elif op[0] == 'rm':
                    a, s = arg(op[2])
                    handed.append((a, s))
                    if op[1] not in model:
                        try:
                            d.remove_words(op[1], a)
                            rec.fail('%s: no ValueError for unknown tag' % what)
                        except ValueError:
                            rec.step()
                    elif a is None:
                        d.remove_words(op[1])
                        del model[op[1]]
                    else:
                        d.remove_words(op[1], a)
                        model[op[1]] -= s
                else:
                    path = os.path.join(tmp, 'd.json')
                    d.save(path)
                    d = Dictionary(path) if step % 2 else Dictionary({'Foo': list(WORDS), 'Noun': ['낡은', '아주오래되고낡은낱말']})
                    tagger = build(d) if step % 3 else None
                    d.load(path)
                    tagger = tagger or build(d)
                compare(d, model, what, rec)
                rec.state((init, tuple(ops[:step + 1])))
            for a, s in handed:
                if a is not None and not isinstance(a, str):
                    rec.equal(set(a), s, 'collection given to %r' % ([menu[j] for j in ops],))
                    if isinstance(a, list):
                        a.append('침입')
                    elif isinstance(a, set):
                        a.add('침입')
            rec.equal(json.dumps({k: sorted(v) for k, v in source.items()}, sort_keys=True), given, 'collections the dictionary was built from')
            rec.equal({k: type(v) for k, v in source.items()}, kinds, 'types of the collections the dictionary was built from')
            for v in source.values():
                if isinstance(v, set):
                    v.add('침입')
            source['Foo'] = {'침입'}
            compare(d, model, 'after changing the given collections', rec)
            rec.equal(d.get_pos('침입'), [], 'a word added only to the given collections')
            finds(tagger, model, 'after %r' % ([menu[j] for j in ops],), rec)
        rec.trace()
        rec.outcome(json.dumps({k: sorted(v) for k, v in model.items()}, sort_keys=True, ensure_ascii=False))
        rec.sample([menu[j] for j in ops])

    depth = 4 if deep else 3
    k = len(menu)
    roots = [[i, list(t)] for i in range(3) for t in itertools.product(range(k), repeat=2)]

    def expand(root):
        i, t = root
        for rest in itertools.product(range(k), repeat=depth - 2):
            yield [i, t + list(rest)]

    def run_missing(case, rec):
        rec.state(case)
        try:
            Dictionary(os.path.join(tempfile.gettempdir(), 'no-such-dictionary-file'))
            rec.fail('a missing dictionary file is accepted')
        except ValueError:
            rec.step()
        rec.outcome('rejected')
        rec.trace()

    def run_chars(case, rec):
        # save/load preserves arbitrary words
        words = [chr(i) + '가' for i in range(case[0], case[1]) if not chr(i).isspace() and not 0xD800 <= i < 0xE000]
        d = Dictionary({'Noun': words, 'Josa': []})
        with tempfile.TemporaryDirectory() as tmp:
            p = os.path.join(tmp, 'd')
            d.save(p)
            e = Dictionary(p)
        for w in words:
            rec.state(w)
            rec.equal(e.get_pos(w), ['Noun'], 'tags of %r after save and load' % w)
        rec.trace()
        rec.outcome('ok')

    def run_scale(case, rec):
        n, sep = case
        noun = ['가%d나' % i for i in range(n)]
        verb = ['다%d' % i for i in range(0, n, 3)]
        d = Dictionary({'Noun': noun[:n // 2], 'Josa': ['는', '.', '를!']})
        tagger = build(d)
        d.add_words('Noun', sep.join(noun[n // 2:]) + sep)
        d.add_words('Verb', sep + sep.join(verb), force=True)
        model = {'Noun': set(noun), 'Verb': set(verb), 'Josa': {'는', '.', '를!'}}
        with tempfile.TemporaryDirectory() as tmp:
            path = os.path.join(tmp, 'd')
            for phase in range(4):
                for w in noun[::max(1, n // 997)] + verb[::max(1, n // 499)] + ['.', '를!', '는', '가-1나', sep, '']:
                    rec.state((n, sep, phase, w))
                    want = sorted(t for t in model if w in model[t])
                    rec.equal(sorted(d.get_pos(w)), want, 'tags of %r among %d words, phase %d' % (w, n, phase))
                for w in (noun[-1], noun[0], verb[-1]):
                    got = tagger.tag(w)
                    tags = [t for t in ('Noun', 'Verb') if w in model.get(t, ())]
                    rec.check(got[0][0] == w and got[0][1] in tags if tags else all(p != w for p, t in got if t), 'phase %d: tags of %r among %d words: %r', phase, w, n, got)
                if phase == 0:
                    d.remove_words('Noun', sep.join(noun[::2]))
                    model['Noun'] -= set(noun[::2])
                elif phase == 1:
                    d.remove_words('Verb', verb[1:-1])
                    model['Verb'] -= set(verb[1:-1])
                elif phase == 2:
                    d.save(path)
                    d = [Dictionary(path), Dictionary({'Noun': ['가']}), Dictionary({}), Dictionary({'Noun': ['낡' * (n + 7)], 'Foo': noun})][n % 4]
                    tagger = build(d)
                    d.load(path)
                    for big in ([], noun[:1], noun):      # few words among many, many among few
                        e = Dictionary({'Noun': big, 'Josa': ['를']})
                        e.add_words('Noun', [noun[-1]])
                        e.add_words('Noun', noun[1:n // 2])
                        e.add_words('Josa', verb)
                        e.add_words('Verb', ['를'] + verb, force=True)
                        has = set(big) | {noun[-1]} | set(noun[1:n // 2])
                        rec.check({w for w in noun if e.word_is_tag(w, 'Noun')} == has, 'nouns after adding %d words to %d', n // 2, len(big))
                        rec.check(all(e.get_pos(w) == ['Josa', 'Verb'] for w in verb + ['를']), 'tags of %d words added to two tags', len(verb))
                        e.remove_words('Josa', verb)
                        rec.check(all(e.get_pos(w) == ['Verb'] for w in verb) and e.get_pos('를') == ['Josa', 'Verb'], 'tags of %d words after removing them from one of two tags', len(verb))
        rec.trace()
        rec.outcome(n)

    overs = [{}, {'Noun': []}, {'Noun': ['가']}, {'Noun': ['가나', '가나다라마']}, {'Verb': ['마바사아자차']}, {'Noun': ['가나'], 'Josa': ['은는이가를로부터까지'], 'Verb': ['x']}, {'Foo': ['아주아주아주아주아주아주긴낱말']},
             {'Noun': ['가' * k for k in range(2, 40)]}]

    def run_over(case, rec):
        a, b = ({t: set(w) for t, w in overs[i].items()} for i in case)
        with tempfile.TemporaryDirectory() as tmp:
            pa, pb = os.path.join(tmp, 'a'), os.path.join(tmp, 'b')
            Dictionary(a).save(pa)
            Dictionary(b).save(pb)
            d = Dictionary(a)
            before = build(d)
            for step, (path, model) in enumerate(((pb, b), (pa, a), (pb, b), (pb, b))):
                d.load(path)
                rec.state((tuple(case), step))
                after = build(d)
                words = sorted({w for m in (a, b) for ws in m.values() for w in ws})
                for w in words:
                    rec.equal(sorted(d.get_pos(w)), sorted(t for t in model if w in model[t]), 'loading %r over %r, step %d: tags of %r' % (b, a, step, w))
                    if len(w) < 2:
                        continue
                    known = [t for t in ('Noun', 'Verb') if w in model.get(t, ())]
                    for tagger in (before, after):
                        got = tagger.tag(w)
                        rec.step()
                        rec.check(got[0] in [(w, t) for t in known] if known else all(p != w for p, t in got if t), 'loading %r over %r, step %d: tags of %r are %r', b, a, step, w, got)
                    if known and 'Josa' in model and 'Noun' in known:
                        for j in model['Josa']:
                            rec.equal([tuple(x) for x in before.tag(w + j)], [(w, 'Noun'), (j, 'Josa')], 'loading %r over %r, step %d: noun and particle' % (b, a, step))
                d.add_words('Noun', ['새' * (3 + step)], force=True)
                rec.equal([tuple(x) for x in before.tag('새' * (3 + step))], [('새' * (3 + step), 'Noun')], 'loading %r over %r, step %d: a new word' % (b, a, step))
        rec.outcome(len(words))
        rec.trace()

    return [
        Harness('load_over', run_over, [[i, j] for i in range(len(overs)) for j in range(len(overs))], about='loading a file over every kind of dictionary, in every order, and tagging with taggers built before and after', bound='%d x %d dictionaries' % (len(overs), len(overs))),
        Harness('scale', run_scale, [[n, sep] for n in (300, 301, 5002, 40003) for sep in (' ', '  ', '\t', '\n ', '\u3000')], about='dictionaries of thousands of words given as one text with different blanks, changed, saved and loaded', bound='40000 words'),
        Harness('histories', run, roots, expand=expand, chunk=4, about='all operation sequences over 13 operations from 3 initial dictionaries', bound='depth %d' % depth),
        Harness('missing_file', run_missing, [0], about='loading a file that does not exist', bound='1'),
        Harness('characters', run_chars, [[lo, lo + 512] for lo in range(1, 0x2000, 512)] + [[0xAC00, 0xAE00], [0x1F600, 0x1F700]], about='words over arbitrary characters through save and load', bound='listed blocks'),
    ]
