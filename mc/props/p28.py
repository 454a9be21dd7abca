"""P28: concurrent queries."""
import os
import sys
import threading

from mc import core, kinds
from mc.core import Harness

PROP = dict(
    id='P28',
    title='Threads may query one object at the same time',
    statement=(
        'Once an object is built and trained, queries that only read it (tokenize, tag, normalize, lemmatize and conjugate, word scores, noun prediction, counts and neighbours in counters and graphs, encoding and decoding of documents, distances, ...) may run in several threads at once: wherever the threads are switched, every query gives the result it gives when nothing else runs, and later queries do too.'),
    quantifier=dict(over=['schedules'], text='all thread switches between any two queries, up to a bound on their number'),
    why_tests_cant='Tests are single-threaded; a switch at one particular line is needed.',
    anchors=dict(files=['soynlp/tokenizer', 'soynlp/postagger', 'soynlp/noun', 'soynlp/word', 'soynlp/vectorizer', 'soynlp/utils', 'soynlp/lemmatizer', 'soynlp/normalizer', 'soynlp/hangle'],
                 mechanism=[dict(name='query methods keep their intermediate results in local variables', where='soynlp')],
                 state=[dict(name='instance attributes', meaning='read-only during queries', where='soynlp')],
                 observe_at=['results of the query methods'], hook_needed=None))

CHECK = dict(
    technique='stateless exploration of thread schedules on the real code: a controlled scheduler (sys.settrace in two real threads) tries every switch point at line granularity, up to two preemptions (thorough: also at bytecode granularity)',
    level_note='All pairs of queries of every component on one shared object; all single preemptions, and all pairs of preemption points with at most a fixed number of schedules per pair of queries.',
    assumptions=['code of other packages (numpy, scipy, re) is not interrupted', 'switches inside one source line are only explored in the thorough tier'])

ROOT = os.path.join(core.REPO, 'soynlp') + os.sep


class Player:
    """Runs one query in a thread of its own, a given number of trace events at a time."""
    def __init__(self, fn, obj, opcodes):
        self.fn, self.obj, self.opcodes = fn, obj, opcodes
        self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.budget, self.events, self.done, self.result = 0, 0, False, None
        self.thread = threading.Thread(target=self.body, daemon=True)
        self.thread.start()

    def body(self):
        self.go.acquire()
        sys.settrace(self.trace)
        try:
            self.result = ('value', repr(self.fn(self.obj)))
        except BaseException as e:
            self.result = ('raised', repr(e))
        finally:
            sys.settrace(None)
            self.done = True
            self.back.release()

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(ROOT):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self.local

    def local(self, frame, event, arg):
        if event == ('opcode' if self.opcodes else 'line'):
            self.events += 1
            if self.budget is not None:
                self.budget -= 1
                if self.budget < 0:
                    self.back.release()
                    self.go.acquire()
        return self.local

    def run(self, budget):
        """Let it execute `budget` more events (None: to the end). False if it is blocked."""
        if self.done:
            return True
        # the thread is stopped right before the event that exceeded the budget
        if budget is not None and self.events and not self.done:
            budget -= 1
        self.budget = budget
        self.go.release()
        return self.back.acquire(timeout=60)


def schedule(make, q1, q2, plan, opcodes):
    """plan: [(who, budget), ...]; afterwards both run to the end, first 0 then 1."""
    obj = make()
    ps = [Player(q1, obj, opcodes), Player(q2, obj, opcodes)]
    for who, budget in plan:
        if not ps[who].run(budget):
            break
    # a thread that waits for a lock of the other one goes on when that one does
    for p in ps:
        if not p.done:
            p.budget = None
            p.go.release()
    for p in ps:
        p.thread.join(60)
    return [p.result for p in ps], [p.events for p in ps], obj


def harnesses(tier):
    deep = tier == 'thorough'
    ks = {k.name: k for k in kinds.kinds()}
    LIMIT = 800 if deep else 260

    def run(case, rec):
        name, v, i, j, opcodes = case
        k = ks[name]
        qs = k.queries(v)
        (l1, q1), (l2, q2) = qs[i], qs[j]
        shared = k.make(v)
        after = [repr(f(k.make(v))) for _, f in qs]
        # events of each query alone
        ns = []
        for q in (q1, q2):
            res, ev, _ = schedule(lambda: k.make(v), q, q, [(0, None), (1, None)], opcodes)
            ns.append(ev[0])
        n1, n2 = ns
        plans = []
        # a budget of events, so that queries with many events get fewer schedules
        cap = max(60, min(2000, 4000000 // (n1 + n2 + 1))) if deep else 110
        s1 = max(1, -(-n1 // cap))
        # the same object is used for all schedules: queries leave nothing behind
        for a in range(0, n1 + 1, s1):
            plans.append([(0, a), (1, None), (0, None)])
        rest = max(0, min(LIMIT, cap) - len(plans)) if deep else max(0, LIMIT - len(plans))
        step = 1
        while (n1 // step + 1) * (n2 // step + 1) > rest and step < max(n1, n2) + 1:
            step += 1
        # offsets differ from row to row, so that the pairs are spread over the whole square
        for r, a in enumerate(range(0, n1 + 1, step)):
            for b in range((r * 7) % step if step > 1 else 0, n2 + 1, step):
                if a and b:
                    plans.append([(0, a), (1, b), (0, None), (1, None)])
        for plan in plans:
            got, ev, _ = schedule(lambda: shared, q1, q2, plan, opcodes)
            rec.state((name, v, i, j, str(plan), opcodes))
            for label, r, alone in ((l1, got[0], after[i]), (l2, got[1], after[j])):
                rec.step()
                rec.check(r == ('value', alone), '%s (variant %d): queries %r and %r in two threads, schedule %r (%s): %r gives %s, alone %s',
                          name, v, l1, l2, plan, 'bytecodes' if opcodes else 'lines', label, core.short(r), core.short(alone))
            rec.trace()
        for (label, f), want in zip(qs, after):
            rec.equal(repr(f(shared)), want, '%s (variant %d): %r after %d schedules of %r and %r' % (name, v, label, len(plans), l1, l2))
        rec.outcome(name)
        rec.sample([name, v, l1, l2, n1, n2, len(plans)])

    cases = []
    for name, k in ks.items():
        for v in range(3):
            n = len(k.queries(v))
            for i in range(n):
                for j in range(n):
                    if deep or v == (i + j + len(name)) % 3:
                        cases.append([name, v, i, j, False])
                        if deep and v == (i + j) % 3:
                            cases.append([name, v, i, j, True])
    return [Harness('schedules', run, cases, chunk=1, about='pairs of queries on one object, all first preemption points, then pairs of preemption points', bound='at most %d schedules per pair of queries' % LIMIT)]
