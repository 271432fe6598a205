#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property on /repo's current source."""
import os
import sys
import time
import traceback
if os.environ.get('PYTHONHASHSEED') != '0':      # deterministic runs
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED='0'))
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    import threading
    out = []
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=lambda: out.append(body()))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(out[0] if out else 2)


def body():
    try:
        return check()
    except Exception:
        traceback.print_exc()
        return 2


def check():
    from sa import prog, report, registry, confirm
    t0 = time.time()
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args:
        tier = args[args.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    P = prog.Program()
    reports = []
    for fn in registry.ANALYSES[prop]:
        reports.append(fn(P, prop, tier))
    confirm.review(P, prop, tier, reports)
    return report.finish(prop, tier, seed, reports, t0, registry.LEVEL[prop])


main()
