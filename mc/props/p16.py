"""P16: DoublespaceLineCorpus."""
import itertools
import os
import shutil
import tempfile

from mc import gen
from mc.core import Harness

PROP = dict(
    id='P16',
    title='A line corpus iterates exactly what its length and limits promise, every time',
    statement=(
        'For every UTF-8 text file (one document per line, sentences separated by two blanks), iterating documents yields each line after the skipped header, stripped, and iterating sentences yields each nonblank stripped sentence in order; a document limit keeps the first that many documents and their sentences, a sentence limit keeps the first that many sentences. '
        'The reported length always equals the number of items an iteration yields, in both modes, for every combination of limits, header size and blank lines, including empty files, before and after iterating. '
        'Every new iteration starts from the beginning, independently of others that are unfinished or interleaved, and switching between document and sentence mode takes effect for the next iteration and length.'),
    quantifier=dict(over=['inputs', 'configurations', 'histories'], text='all files, limits, headers and iteration histories'),
    why_tests_cant='Tests iterate one sample file with a limit larger than the file and never compare length with iteration.',
    anchors=dict(files=['soynlp/utils/utils.py'], mechanism=[dict(name='DoublespaceLineCorpus._check_length / __iter__ / __len__', where='soynlp/utils/utils.py')],
                 observe_at=['len()', 'iteration'], hook_needed=None))

CHECK = dict(
    technique='bounded-exhaustive enumeration of files x limits x modes on the real corpus class against a line/sentence model, and of iteration histories',
    level_note='All files of up to the stated number of lines over a 8-line menu (blank, padded, multi-sentence lines), with and without final newline, all limit/header/mode combinations; all iteration histories up to the stated depth. With a sentence limit in document mode only the prefix property, coverage of the sentences and agreement with the length are claimed.',
    assumptions=['the file does not change while the corpus object lives'])

LINES = ['', 'a', 'a b', 'a  b', 'c  d  e', '  f', '   ', 'g   h \t']


def doc_sents(doc):
    out = []
    for s in doc.split('  '):
        s = s.strip()
        if s:
            out.append(s)
    return out


def harnesses(tier):
    from soynlp.utils import DoublespaceLineCorpus
    from soynlp.utils import check_corpus
    deep = tier == 'thorough'

    def write(path, lines, newline):
        with open(path, 'w', encoding='utf8', newline='') as f:
            f.write('\n'.join(lines) + ('\n' if newline and lines else ''))

    def file_lines(lines, newline):
        if not lines:
            return []
        if not newline and lines[-1] == '':
            return lines[:-1]
        return lines

    def compare(path, lines, cfg, rec, what):
        num_doc, num_sent, iter_sent, skip = cfg
        c = DoublespaceLineCorpus(path, num_doc=num_doc, num_sent=num_sent, iter_sent=iter_sent, skip_header=skip)
        docs = lines[skip:]
        if num_doc > 0:
            docs = docs[:num_doc]
        sents = [s for d in docs for s in doc_sents(d)]
        if num_sent > 0:
            sents = sents[:num_sent]
        n0 = len(c) if (num_doc + skip) % 2 else None
        got = list(c)
        if n0 is not None:
            rec.equal(n0, len(got), what + ': length before iterating vs items')
        rec.equal(len(c), len(got), what + ': length vs items')
        if iter_sent:
            rec.equal(got, sents, what + ': sentences')
        elif num_sent <= 0:
            rec.equal(got, [d.strip() for d in docs], what + ': documents')
        else:
            rec.check(got == [d.strip() for d in docs[:len(got)]], what + ': documents %r are not a prefix of %r' % (got, docs))
            rec.check(sum(len(doc_sents(d)) for d in docs[:len(got)]) >= len(sents), what + ': documents %r do not cover the %d sentences' % (got, len(sents)))
            rec.step()
        rec.equal(list(c), got, what + ': second iteration')
        return len(got)

    def run(case, rec):
        idx, newline = case
        tmp = tempfile.mkdtemp()
        try:
            path = os.path.join(tmp, 'corpus.txt')
            lines = [LINES[i] for i in idx]
            write(path, lines, newline)
            actual = file_lines(lines, newline)
            top = len(lines)
            for cfg in itertools.product([-1] + list(range(1, top + 2)), [-1, 1, 2, 3, 5], [False, True], [0, 1, 2]):
                rec.state((tuple(idx), newline, cfg))
                rec.outcome(compare(path, actual, cfg, rec, 'file %r, newline=%s, (num_doc, num_sent, iter_sent, skip_header)=%r' % (lines, newline, cfg)))
            rec.trace()
            rec.sample([lines, newline])
        finally:
            shutil.rmtree(tmp)

    hist = ['new', 'step', 'other', 'len', 'toggle', 'drain']

    def run_hist(case, rec):
        fi, cfg, ops = case
        lines = [['a  b', '', 'c', 'd  e  f'], ['x'], ['h', 'a  b', 'c  d']][fi]
        tmp = tempfile.mkdtemp()
        try:
            path = os.path.join(tmp, 'corpus.txt')
            write(path, lines, True)
            num_doc, skip, num_sent = cfg
            c = DoublespaceLineCorpus(path, num_doc=num_doc, num_sent=num_sent, skip_header=skip, iter_sent=num_sent > 0)
            docs = lines[skip:]
            if num_doc > 0:
                docs = docs[:num_doc]
            mode = num_sent > 0
            want = {False: [d.strip() for d in docs], True: [s for d in docs for s in doc_sents(d)]}
            if num_sent > 0:
                want[True] = want[True][:num_sent]
            its = []
            for step, op in enumerate(ops):
                op = hist[op]
                what = 'file %r %r after %r' % (lines, cfg, [hist[o] for o in ops[:step + 1]])
                if op == 'new':
                    its.append([iter(c), None, []])
                elif op in ('step', 'other'):
                    if not its:
                        continue
                    it = its[-1 if op == 'step' else 0]
                    if it[1] is None:
                        it[1] = mode
                    elif it[1] != mode:
                        continue   # an iteration that saw a mode switch is unspecified
                    try:
                        it[2].append(next(it[0]))
                    except StopIteration:
                        rec.equal(it[2], want[it[1]], what + ': finished iteration')
                    rec.equal(it[2], want[it[1]][:len(it[2])], what + ': iteration so far')
                elif op == 'len':
                    rec.equal(len(c), len(want[mode]), what + ': length')
                elif op == 'toggle':
                    if num_sent > 0:
                        continue   # a sentence limit in document mode is compared by the other harness
                    mode = not mode
                    c.iter_sent = mode
                    its = []
                else:
                    rec.equal(list(c), want[mode], what + ': full iteration')
            rec.state((fi, tuple(cfg), tuple(ops)))
            rec.equal(len(c), len(want[mode]), 'final length')
            rec.equal(list(c), want[mode], 'final iteration')
            rec.trace()
            rec.outcome(len(want[mode]))
        finally:
            shutil.rmtree(tmp)

    depth = 6 if deep else 5

    def expand(root):
        fi, cfg = root
        for ops in itertools.product(range(len(hist)), repeat=depth):
            yield [fi, cfg, list(ops)]

    def run_check(case, rec):
        rec.state(case)
        rec.step()
        if case == 'missing':
            try:
                DoublespaceLineCorpus(os.path.join(tempfile.gettempdir(), 'no-such-corpus-file'))
                rec.fail('a missing file is accepted')
            except ValueError:
                pass
        else:
            for bad in (iter(['a']), 5, []):
                try:
                    check_corpus(bad)
                    rec.fail('check_corpus accepts %r' % (bad,))
                except ValueError:
                    pass
            for good in (['a'], ('a',), {'a': 1}):
                rec.equal(check_corpus(good), True, 'check_corpus(%r)' % (good,))
        rec.trace()
        rec.outcome(case)

    def run_big(case, rec):
        n, ends = case
        lines = [('문장%d  둘째 %d' % (i, i) if i % 3 else '' if i % 2 else '하나\u3000뿐') for i in range(n)]
        tmp = tempfile.mkdtemp()
        try:
            path = os.path.join(tmp, 'corpus.txt')
            with open(path, 'w', encoding='utf8', newline='') as f:
                f.write(ends.join(lines) + ends)
            for cfg in itertools.product([-1, 1, n // 2, n], [-1, 1, n], [False, True], [0, 3]):
                rec.state((n, ends, cfg))
                compare(path, lines, cfg, rec, 'file of %d lines, %r' % (n, cfg))
            rec.trace()
            rec.outcome(n)
        finally:
            shutil.rmtree(tmp)

    odd = ['a\x0cb', 'a\u2028b  c', '\x85x', '\u3000y  z\u3000', 'a\tb', '\t', '\x0c', 'p \x1c q  r', 'k  \t  l', '\ufeffb', '\xa0  \xa0', 'a   b    c     d', '\x0b  e']

    def run_odd(case, rec):
        a, b, newline = case
        tmp = tempfile.mkdtemp()
        try:
            path = os.path.join(tmp, 'corpus.txt')
            for lines in ([odd[a], 'x', odd[b]], ['h', odd[a], odd[b], 'y  z'], [odd[a] + odd[b]]):
                write(path, lines, newline)
                for cfg in itertools.product([-1, 1, 2], [-1, 1, 2, 3], [False, True], [0, 1]):
                    rec.state((a, b, newline, len(lines), cfg))
                    compare(path, file_lines(lines, newline), cfg, rec, 'file %r, (num_doc, num_sent, iter_sent, skip_header)=%r' % (lines, cfg))
            rec.trace()
            rec.outcome('ok')
        finally:
            shutil.rmtree(tmp)

    def run_scale(case, rec):
        n, iter_sent = case
        lines = ['문장%d  둘째 %d' % (i, i) * (1 + (i % 997 == 0) * 300) if i % 3 else '' if i % 2 else '하나\u3000뿐' for i in range(n)]
        tmp = tempfile.mkdtemp()
        try:
            path = os.path.join(tmp, 'corpus.txt')
            write(path, lines, True)
            for cfg in itertools.product([-1, n // 3, n - 1, n + 1], [-1, n // 2, 3 * n], [iter_sent], [0, n // 4]):
                rec.state((n, cfg))
                num_doc, num_sent, it, skip = cfg
                docs = [d.strip() for d in lines[skip:]]
                docs = docs[:num_doc] if num_doc > 0 else docs
                sents = [s for d in docs for s in doc_sents(d)]
                sents = sents[:num_sent] if num_sent > 0 else sents
                what = 'file of %d lines, %r' % (n, cfg)
                c = DoublespaceLineCorpus(path, num_doc=num_doc, num_sent=num_sent, iter_sent=it, skip_header=skip)
                got = list(c)
                rec.step(len(got))
                rec.check(len(c) == len(got), '%s: length %d, but %d items', what, len(c), len(got))
                if it or num_sent <= 0:
                    rec.check(got == (sents if it else docs), '%s: %d items instead of %d', what, len(got), len(sents if it else docs))
                else:
                    rec.check(got == docs[:len(got)] and sum(len(doc_sents(d)) for d in got) >= len(sents), '%s: %d documents for %d sentences', what, len(got), len(sents))
                half = iter(c)
                rec.check([next(half) for _ in range(min(7, len(got)))] == got[:7] and list(c) == got and list(half) == got[7:], '%s: interleaved iterations', what)
            rec.trace()
            rec.outcome(n)
        finally:
            shutil.rmtree(tmp)

    m = 4 if deep else 3
    return [
        Harness('files', run, [[list(t), nl] for t in gen.tuples_upto(range(len(LINES)), m) for nl in (True, False)], chunk=8, about='all files over 8 lines x all limits, modes and header sizes', bound='%d lines' % m),
        Harness('histories', run_hist, [[fi, list(cfg), list(ops)] for fi in range(3) for cfg in ((-1, 0, -1), (2, 0, -1), (1, 1, -1), (-1, 0, 3), (3, 0, 2)) for ops in itertools.product(range(len(hist)), repeat=depth)], chunk=128, about='all histories of opening, advancing, interleaving, measuring and mode switching', bound='depth %d' % depth),
        Harness('argument_checks', run_check, ['missing', 'check_corpus'], about='rejected corpora', bound='2'),
        Harness('unusual_lines', run_odd, [[a, b, nl] for a in range(len(odd)) for b in range(len(odd)) for nl in (True, False)], chunk=16, about='lines with tabs, form feeds, other line and blank characters', bound='pairs of %d lines' % len(odd)),
        Harness('scale', run_scale, [[n, it] for n in (3000, 20000, 70000) for it in (False, True)], chunk=1, about='files of thousands of lines, some of them long, limits in the thousands', bound='70000 lines'),
        Harness('larger', run_big, [[n, e] for n in (5, 40, 1000) for e in ('\n', '\r\n')], about='larger files and line ends', bound='1000 lines'),
    ]
