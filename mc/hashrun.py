"""Run every history of mc/kinds.py once and print its results as JSON (see P29)."""
import contextlib
import io
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def results(extra=()):
    from mc import kinds
    out = {}
    for k in list(kinds.kinds()) + list(kinds.ties()) + list(extra):
        for v in range(3):
            with contextlib.redirect_stdout(io.StringIO()):
                try:
                    o = k.make(v)
                    for i, (label, f) in enumerate(k.steps(v)):
                        out['%s / variant %d / step %d %s' % (k.name, v, i, label)] = repr(f(o))
                except Exception as e:
                    out['%s / variant %d / exception' % (k.name, v)] = repr(e)
    return out


def main():
    from mc import core
    core.load_soynlp()
    r = results()
    json.dump(r, sys.stdout, ensure_ascii=True)


if __name__ == '__main__':
    main()
