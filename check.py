#!/usr/bin/env python3
"""Entry point of all checks: check.py <property id> [quick|thorough], check.py --setup, check.py --list."""
import os
import sys
import threading

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.path.insert(0, HERE)
sys.setrecursionlimit(1000000)
threading.stack_size(1 << 29)


def main(argv, out):
    from checks import base, registry
    if argv[0] == '--setup':
        base.ensure_driver()
        for f in base.FEATURES:
            base.dump(f)
        return
    if argv[0] == '--list':
        for k, v in sorted(registry.CHECKS.items()):
            print(k, v[0].__name__)
        return
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    out[0] = base.run(argv[0], tier, registry.CHECKS)


if __name__ == '__main__':
    out = [2]

    def body():
        try:
            if sys.argv[1] in ('--setup', '--list'):
                out[0] = 0
            main(sys.argv[1:], out)
        except BaseException:
            import traceback
            traceback.print_exc()
            out[0] = 2
    t = threading.Thread(target=body)
    t.start()
    t.join()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(out[0])
