import argparse
import os
import sys

from mc import core


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--only', action='append')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--procs', type=int)
    a = ap.parse_args()
    if a.replay:
        return core.replay(a.pid, a.replay)
    return core.run_property(a.pid, a.tier, a.seed, procs=a.procs, verbose=a.v, only=a.only)


if __name__ == '__main__':
    sys.exit(main())
