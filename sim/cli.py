import argparse
import os
import sys
import traceback

from . import runner


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("tier")
    ap.add_argument("seed", type=int)
    ap.add_argument("scratch")
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int)
    ap.add_argument("--count", type=int)
    ap.add_argument("--log")
    a = ap.parse_args()
    if a.replay:
        sys.exit(runner.replay(a.id, a.replay))
    sys.exit(runner.main(a.id, a.tier, a.seed, a.scratch, a.workers, a.count))


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException:  # never to be confused with a verdict
        traceback.print_exc()
        sys.stderr.flush()
        os._exit(3)
