# -*- coding: utf-8 -*-
import importlib
import json
import os
import sys


def run():
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from mc import core
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith('-') else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    replay = None
    if '--replay' in sys.argv:
        with open(sys.argv[sys.argv.index('--replay') + 1]) as f:
            replay = json.load(f)['key']
    try:
        mod = importlib.import_module('mc.checks.%s' % pid.lower())
        fn = mod.check
    except Exception as er:
        import traceback
        tb, er_ = traceback.format_exc(), er

        def fn(chk):
            raise RuntimeError('the check could not import the code under test: %s\n%s' % (er_, tb))
    return core.main(pid, fn, tier, seed, replay)


if __name__ == '__main__':
    rc = run()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
