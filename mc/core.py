"""Explorer runtime.

A property module (mc/props/pXX.py) defines

    PROP      the property record (one line of properties.jsonl)
    CHECK     dict(technique=..., level_note=..., assumptions=[...])
    harnesses(tier) -> [Harness, ...]

A Harness is a finite tree of executions of the real code: `roots` is a list of
JSON-able prefixes, `expand(root)` yields every case (JSON-able) below that
prefix, and `run(case, rec)` executes the case on the real code and compares it
with the reference model on every step.  All roots of all harnesses are explored
to the end; the work is only spread over worker processes.
"""
import collections
import copy
import hashlib
import importlib
import json
import multiprocessing
import os
import resource
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CPU_LIMIT_PER_CASE = 60     # seconds of process CPU time before a case counts as non-terminating
DEADLINE = 840              # wall seconds after which an unfinished run is reported as such
MEM_LIMIT = 8 << 30


class Violation(Exception):
    def __init__(self, message, key=None):
        Exception.__init__(self, message)
        self.message = message
        self.key = key


class CaseTimeout(BaseException):
    pass


class Harness:
    def __init__(self, name, run, roots, expand=None, chunk=1, about='', bound=''):
        self.name = name
        self.run = run
        self.roots = roots
        self.expand = expand
        self.chunk = chunk
        self.about = about
        self.bound = bound

    def cases(self, root):
        if self.expand is None:
            yield root
        else:
            for case in self.expand(root):
                yield case


class Recorder:
    """Counters of one task.  state(key): one distinct state of this harness;
    step(n): n calls of the implementation compared with the model;
    trace(): one complete history replayed on implementation and model."""
    MAX_SAMPLES = 2

    def __init__(self):
        self.states = set()
        self.steps = 0
        self.traces = 0
        self.cases = 0
        self.outcomes = collections.Counter()
        self.samples = []
        self.case = None

    def state(self, key):
        self.states.add(hash_key(key))

    def step(self, n=1):
        self.steps += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, label):
        self.outcomes[str(label)] += 1

    def sample(self, obj):
        if len(self.samples) < self.MAX_SAMPLES:
            self.samples.append(obj)

    # -- comparisons -------------------------------------------------------
    def fail(self, message, key=None):
        raise Violation(message, key)

    def check(self, cond, message, *args, **kw):
        if not cond:
            raise Violation(message % args if args else message, kw.get('key'))

    def equal(self, got, want, what, key=None):
        self.steps += 1
        if got != want:
            raise Violation('%s: implementation gives %s, reference gives %s' % (what, short(got), short(want)), key)

    def close(self, got, want, what, tol=1e-9, key=None):
        self.steps += 1
        ok = False
        try:
            ok = abs(got - want) <= tol * max(1.0, abs(want))
        except TypeError:
            pass
        if got == want:
            ok = True
        if not ok:
            raise Violation('%s: implementation gives %s, reference gives %s' % (what, short(got), short(want)), key)


    def own(self, call, what, again=None):
        """The result of `call()` belongs to the caller: it does not change when the call is
        repeated, and whatever the caller does to it never shows up in a later result."""
        first = call()
        snap = copy.deepcopy(first)
        if again is not None:
            again()
        second = call()
        self.steps += 2
        if not same(second, snap):
            raise Violation('%s, asked again: first %s, then %s' % (what, short(snap), short(second)))
        if not same(first, snap):
            raise Violation('%s: the first result changed from %s to %s when the call was repeated' % (what, short(snap), short(first)))
        spoil(first)
        spoil(second)
        third = call()
        self.steps += 1
        if not same(third, snap):
            raise Violation('%s, asked again after the caller modified the earlier results: first %s, then %s' % (what, short(snap), short(third)))


def same(a, b):
    if hasattr(a, 'todense') or hasattr(b, 'todense'):
        return type(a) == type(b) and a.shape == b.shape and (abs(a - b)).sum() == 0
    if hasattr(a, 'shape') and hasattr(a, 'tolist'):
        return hasattr(b, 'tolist') and a.tolist() == b.tolist()
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return a == b


def spoil(x):
    if isinstance(x, dict):
        for v in list(x.values()):
            spoil(v)
        x.clear()
        x['\u0001spoilt'] = 1
    elif isinstance(x, list):
        for v in x:
            spoil(v)
        x[:] = []
    elif isinstance(x, set):
        x.clear()
    elif isinstance(x, tuple):
        for v in x:
            spoil(v)
    elif hasattr(x, 'fill'):
        try:
            x.fill(7)
        except (ValueError, TypeError):
            pass
    elif hasattr(x, 'data') and hasattr(x, 'indices'):
        x.data[:] = 7


def short(x, n=600):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...(%d chars)' % len(s)


def hash_key(key):
    if isinstance(key, (str, int, tuple, frozenset)):
        # PYTHONHASHSEED is fixed for the whole run, so hashes agree between workers
        return hash(key)
    return int.from_bytes(hashlib.blake2b(repr(key).encode('utf8', 'backslashreplace'), digest_size=8).digest(), 'big')


# -- importing the code under test -------------------------------------------
_loaded = False


def load_soynlp():
    """Import soynlp from the working tree at REPO, compiled from source (never
    from a cached .pyc that could be stale)."""
    global _loaded
    if _loaded:
        return
    import warnings
    warnings.simplefilter('ignore')
    os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
    os.environ.setdefault('OMP_NUM_THREADS', '1')
    sys.dont_write_bytecode = True
    import numpy, scipy.sparse, psutil  # noqa
    import sklearn.preprocessing, sklearn.metrics, sklearn.utils.extmath  # noqa
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), 'no-such-pycache-%d' % os.getpid())
    sys.path.insert(0, REPO)
    import soynlp
    got = os.path.dirname(os.path.dirname(os.path.abspath(soynlp.__file__)))
    if os.path.realpath(got) != os.path.realpath(REPO):
        raise RuntimeError('soynlp imported from %s, not from %s' % (got, REPO))
    _loaded = True


# -- worker ------------------------------------------------------------------
_H = None
_watch = {'rec': None, 'case': None, 'ticks': 0}


def _on_tick(signum, frame):
    rec = _watch['rec']
    if rec is None:
        return
    if rec.cases == _watch['case']:
        _watch['ticks'] += 1
        if _watch['ticks'] >= CPU_LIMIT_PER_CASE:
            _watch['ticks'] = 0
            raise CaseTimeout()
    else:
        _watch['case'] = rec.cases
        _watch['ticks'] = 0


def _worker_init():
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    sys.stdout = open(os.devnull, 'w', encoding='utf8')
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    except (ValueError, OSError):
        pass
    signal.signal(signal.SIGVTALRM, _on_tick)
    signal.setitimer(signal.ITIMER_VIRTUAL, 1.0, 1.0)


def run_case(harness, case, rec):
    rec.case = case
    rec.cases += 1
    try:
        harness.run(case, rec)
        return None
    except Violation as v:
        return dict(message=v.message, key=v.key)
    except CaseTimeout:
        return dict(message='did not terminate within %d s of CPU time' % CPU_LIMIT_PER_CASE, key='timeout')
    except RecursionError as e:
        return dict(message='raised RecursionError: %s' % e, key='raise')
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-4:]))
        return dict(message='raised %s: %s (%s)' % (type(e).__name__, e, where), key='raise')


def _run_task(task):
    hi, lo, hi_root = task
    harness = _H[hi]
    rec = Recorder()
    _watch.update(rec=rec, case=None, ticks=0)
    found = []
    t0 = time.time()
    seen_keys = set()
    for root in harness.roots[lo:hi_root]:
        try:
            for case in harness.cases(root):
                v = run_case(harness, case, rec)
                if v:
                    v.update(harness=harness.name, case=case)
                    if v['key'] is not None and v['key'] in seen_keys:
                        continue
                    seen_keys.add(v['key'])
                    found.append(v)
                    if len(found) >= 20:
                        break
        except CaseTimeout:
            found.append(dict(message='did not terminate', key='timeout', harness=harness.name, case=rec.case))
        if len(found) >= 20:
            break
    _watch['rec'] = None
    return dict(task=task, states=rec.states, steps=rec.steps, traces=rec.traces, cases=rec.cases,
                outcomes=dict(rec.outcomes), samples=rec.samples, found=found, wall=time.time() - t0)


# -- known findings ------------------------------------------------------------
def known_findings(pid):
    """Lines `open: property=<id> key=<signature> :: <text>` of known_findings.txt."""
    out = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path, encoding='utf8'):
            line = line.strip()
            if line.startswith('open: property=%s ' % pid):
                rest = line.split(' ', 2)[2]
                key, text = rest.split(' :: ', 1)
                out[key[len('key='):]] = text
    return out


# -- main ----------------------------------------------------------------------
def run_property(pid, tier, seed, procs=None, verbose=False, only=None):
    global _H
    t0 = time.time()
    load_soynlp()
    mod = importlib.import_module('mc.props.%s' % pid.lower())
    harnesses = mod.harnesses(tier)
    if only:
        harnesses = [h for h in harnesses if h.name in only]
    for h in harnesses:
        h.roots = list(h.roots)
    _H = harnesses
    procs = procs or int(os.environ.get('VERIF_PROCS', 0)) or min(8, os.cpu_count() or 1)
    tasks = []
    for hi, h in enumerate(harnesses):
        for lo in range(0, len(h.roots), h.chunk):
            tasks.append((hi, lo, min(len(h.roots), lo + h.chunk)))
    stats = [dict(states=set(), steps=0, traces=0, cases=0, outcomes=collections.Counter(), samples=[], wall=0.0)
             for _ in harnesses]
    found = []
    capped = None
    known = known_findings(pid)
    ctx = multiprocessing.get_context('fork')
    pool = ctx.Pool(procs, initializer=_worker_init)
    stop_at = None
    try:
        pending = pool.imap_unordered(_run_task, tasks)
        done = 0
        while done < len(tasks):
            limit = DEADLINE - (time.time() - t0)
            if stop_at is not None:
                limit = min(limit, stop_at - time.time())
            if limit <= 0:
                capped = 'stopped after a violation' if stop_at is not None else 'wall-clock deadline'
                break
            try:
                r = pending.next(timeout=limit)
            except multiprocessing.TimeoutError:
                continue
            done += 1
            s = stats[r['task'][0]]
            s['states'] |= r['states']
            s['steps'] += r['steps']
            s['traces'] += r['traces']
            s['cases'] += r['cases']
            s['wall'] += r['wall']
            s['outcomes'].update(r['outcomes'])
            if len(s['samples']) < 2:
                s['samples'] += r['samples'][:2 - len(s['samples'])]
            for v in r['found']:
                v['order'] = r['task']
                found.append(v)
                if v['key'] not in known and stop_at is None:
                    stop_at = time.time() + float(os.environ.get('VERIF_STOP', 5))
        if capped is None:
            pool.close()
        else:
            pool.terminate()
        pool.join()
    finally:
        pool.terminate()
    wall = time.time() - t0

    new = [v for v in found if not (v['key'] in known)]
    new.sort(key=lambda v: (v['order'], len(json.dumps(v['case'], ensure_ascii=False, default=str))))
    old_keys = sorted({v['key'] for v in found if v['key'] in known})

    total = sum(len(s['states']) for s in stats)
    coverage = dict(
        states=total,
        transitions=sum(s['steps'] for s in stats),
        traces_validated_against_impl=sum(s['traces'] for s in stats),
        evaluations=sum(s['cases'] for s in stats),
        exhaustive=capped is None and not only,
        rule=('states: distinct inputs / model states reached; transitions: results of the real code compared '
              'with the reference model; traces: complete executions (histories, enumeration leaves, schedules) '
              'run on the real code and on the model in lock-step; evaluations: enumerated cases executed'),
        samples=[dict(harness=h.name, case=x) for h, s in zip(harnesses, stats) for x in s['samples']][:24],
        harnesses=[dict(name=h.name, about=h.about, bound=h.bound, cases=s['cases'], states=len(s['states']),
                        transitions=s['steps'], traces=s['traces'],
                        distinct_outcomes=len(s['outcomes']),
                        outcomes=dict(s['outcomes'].most_common(12)),
                        cpu_s=round(s['wall'], 2)) for h, s in zip(harnesses, stats)],
    )
    if capped:
        coverage['capped'] = capped
    evidence = dict(property=pid, tier=tier, seed=seed, level=mod.CHECK.get('level', 'model_checking'),
                    coverage=coverage, assumptions=mod.CHECK.get('assumptions', []),
                    wall_s=round(wall, 3), violations=len(new))
    if REPO == '/repo' or os.environ.get('VERIF_EVIDENCE'):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        path = os.path.join(VERIF, 'evidence', pid + '.json')
        with open(path + '.tmp', 'w', encoding='utf8') as f:
            json.dump(evidence, f, ensure_ascii=True, indent=1, default=str)
        os.replace(path + '.tmp', path)
    if verbose:
        for h in coverage['harnesses']:
            print('  %-28s cases=%-8d states=%-8d transitions=%-9d traces=%-8d outcomes=%-5d cpu=%.1fs' % (
                h['name'], h['cases'], h['states'], h['transitions'], h['traces'], h['distinct_outcomes'], h['cpu_s']))
    for key in old_keys:
        print('KNOWN-FINDING: property=%s %s' % (pid, known[key]))
    if new:
        for i, v in enumerate(new[:5]):
            path = write_replay(pid, v, i)
            if i == 0:
                print('VIOLATION property=%s replay=%s' % (pid, path))
            print('  [%s] %s' % (v['harness'], v['message']))
            print('  case: %s' % short(v['case'], 400))
        return 1
    if capped and stop_at is None:
        print('INCOMPLETE property=%s: %s after %d of %d tasks' % (pid, capped, done, len(tasks)))
        return 2
    # vacuity guard: an exploration that compared nothing is an error of the check
    empty = [h.name for h, s in zip(harnesses, stats) if s['steps'] == 0 or not s['states']]
    if empty:
        print('VACUOUS property=%s: harness %s compared nothing' % (pid, ', '.join(empty)))
        return 2
    print('OK property=%s tier=%s states=%d transitions=%d traces=%d wall=%.1fs' % (
        pid, tier, coverage['states'], coverage['transitions'], coverage['traces_validated_against_impl'], wall))
    return 0


def write_replay(pid, v, i):
    d = os.path.join(VERIF, 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%d.json' % (pid, i))
    with open(path, 'w', encoding='utf8') as f:
        json.dump(dict(property=pid, harness=v['harness'], case=v['case'], message=v['message'], key=v['key'],
                       replay_cmd='%s %s --replay %s' % (os.path.join(VERIF, 'check'), pid, path)),
                  f, ensure_ascii=True, indent=1, default=str)
    return path


def replay(pid, path):
    load_soynlp()
    mod = importlib.import_module('mc.props.%s' % pid.lower())
    data = json.load(open(path, encoding='utf8'))
    for tier in ('quick', 'thorough'):
        for h in mod.harnesses(tier):
            if h.name == data['harness']:
                v = run_case(h, data['case'], Recorder())
                if v:
                    print('VIOLATION property=%s replay=%s' % (pid, path))
                    print('  [%s] %s' % (h.name, v['message']))
                    return 1
                print('replayed without violation')
                return 0
    print('no harness %s' % data['harness'])
    return 2
