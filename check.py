#!/opt/veriftools/pyvenv/bin/python
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from eclvc import run
from specs.registry import REG
if __name__ == '__main__':
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    sys.exit(run.check(sys.argv[1], REG, tier, int(os.environ.get('VERIF_SEED', '1'))))
