"""Usage: run.py C01 [quick|thorough]   or   run.py --replay FILE"""
import os
import shutil
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import core


def main(argv):
    if argv[1] == '--replay':
        return core.replay(os.path.abspath(argv[2]))
    prop = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    return core.run_property(prop, tier, seed)


if __name__ == '__main__':
    owner = 'VERIF_SCRATCH' not in os.environ
    rc = 2
    try:
        rc = main(sys.argv)
    finally:
        if owner and os.environ.get('VERIF_SCRATCH', '').startswith('/'):
            shutil.rmtree(os.environ['VERIF_SCRATCH'], ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)
