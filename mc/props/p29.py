"""P29: determinism."""
import json
import os
import subprocess
import sys

from mc import core
from mc.core import Harness

PROP = dict(
    id='P29',
    title='Results do not depend on the hash seed of the process',
    statement=(
        'The same calls with the same inputs give the same results in every process, whatever seed Python hashes strings with: tokens, tags and word lists in the same order, the same choice among equally scored alternatives, the same nouns, predicates, endings, scores and vocabularies. '
        '(The iteration order of sets and the key order of dicts that are results is not meant.)'),
    quantifier=dict(over=['schedules', 'inputs'], text='all hash seeds (set iteration orders), all components'),
    why_tests_cant='A test run uses one hash seed, and the order of sets in it is one of many.',
    anchors=dict(files=['soynlp/postagger', 'soynlp/tokenizer', 'soynlp/noun', 'soynlp/predicator', 'soynlp/pos', 'soynlp/word', 'soynlp/vectorizer', 'soynlp/lemmatizer', 'soynlp/utils'],
                 mechanism=[dict(name='every place that iterates over a set of strings', where='soynlp')],
                 state=[], observe_at=['results of all public components'], hook_needed=None))

CHECK = dict(
    technique='exhaustive exploration of the set orders that hash seeds 0..N produce: every history of a registry of all components is run in one process per seed and compared step by step',
    level_note='Every component of the package with short histories, and every tie-breaking component with inputs full of ties.',
    assumptions=['other sources of nondeterminism (threads in BLAS) are switched off'])


def run_seed(seed):
    env = dict(os.environ, PYTHONHASHSEED=str(seed), VERIF_REPO=core.REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONIOENCODING='utf8', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    p = subprocess.run([sys.executable, '-W', 'ignore', os.path.join(core.VERIF, 'mc', 'hashrun.py')], env=env, capture_output=True, timeout=600)
    try:
        return json.loads(p.stdout)
    except ValueError:
        raise RuntimeError('no results with hash seed %d: %s' % (seed, p.stderr[-600:].decode('utf8', 'replace')))


def harnesses(tier):
    base = {}

    def run(seed, rec):
        if not base:
            base.update(run_seed(0))
        got = run_seed(seed)
        for k in sorted(set(base) | set(got)):
            rec.state((seed, k))
            rec.equal(got.get(k), base.get(k), '%s: hash seed %d against hash seed 0' % (k, seed))
        rec.outcome('same')
        rec.trace(len({k.split(' / step')[0] for k in got}))
        rec.sample(seed)

    n = 28 if tier == 'quick' else 400
    return [Harness('seeds', run, list(range(1, n + 1)), chunk=4 if tier == 'quick' else 10, about='all histories of all components, one process per hash seed', bound='hash seeds 0..%d' % n)]
