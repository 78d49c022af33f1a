#!/usr/bin/env python3-vt
"""Usage: check.py <property id> quick|thorough   (static analysis of /repo's source tree)"""
import importlib
import os
import sys
import threading

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(400000)
threading.stack_size(1024 * 1024 * 1024)


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from vg import chk

    m = importlib.import_module("props." + pid)
    return chk.run(pid, tier, seed, m.PARTS, m.META)


rc = [2]


def go():
    try:
        rc[0] = main()
    except SystemExit as e:
        rc[0] = e.code
    except BaseException:
        import traceback

        traceback.print_exc()


if __name__ == "__main__":
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if isinstance(rc[0], int) else 2)
