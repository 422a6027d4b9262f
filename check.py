#!/usr/bin/env python3
'''
Decide one property of /repo's current working tree by static analysis.

    python3-vt check.py C05 [--root DIR] [--tier quick|thorough]

The library's source is parsed and abstractly interpreted; it is never imported
or run. Exit 0: no violation. Exit 1: a VIOLATION line. Anything else: the
analysis itself is broken (an anchor vanished, nothing could be decided).
'''
import argparse
import collections
import json
import os
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from sa import report          # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--root', default=os.environ.get('SA_ROOT', '/repo'))
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--evidence', default=os.path.join(HERE, 'evidence'))
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    return report.check(a.property, a.root, a.tier, seed, a.evidence, HERE)


if __name__ == '__main__':
    out = []
    # Deep recursion over syntax trees needs a deep C stack as well.
    threading.stack_size(512 * 1024 * 1024)

    def run():
        try:
            out.append(main())
        except SystemExit as e:
            out.append(e.code if isinstance(e.code, int) else 2)
        except BaseException:
            import traceback
            traceback.print_exc()
            out.append(3)
    t = threading.Thread(target=run)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(out[0] if out else 3)
