"""./check <property id> [--replay file] [--tier quick|thorough] [--serial]"""
import argparse
import importlib
import os
import sys
import traceback
import warnings

warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, os.path.join(HERE, 'checks'))
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--replay')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--serial', action='store_true')
    args = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = 'thorough' if args.tier == 'thorough' else 'quick'
    import py2load
    py2load.install()
    import mc
    import numpy as np
    np.seterr(all='ignore')
    try:
        module = importlib.import_module(args.pid.lower())
    except Exception:
        # The code under test cannot even be loaded.
        traceback.print_exc()
        path = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(path, exist_ok=True)
        path = os.path.join(path, '%s_load.txt' % args.pid)
        with open(path, 'w') as f:
            f.write(traceback.format_exc())
        print('VIOLATION property=%s replay=%s' % (args.pid, path))
        return 1
    return mc.run(module, tier, seed, replay=args.replay, serial=args.serial)


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
