import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core

if __name__ == '__main__':
  p = argparse.ArgumentParser()
  p.add_argument('prop')
  p.add_argument('tier', nargs='?', default=None)
  p.add_argument('--replay')
  p.add_argument('--only')
  p.add_argument('-v', action='store_true')
  a = p.parse_args()
  tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
  seed = int(os.environ.get('VERIF_SEED') or 0)
  rc = core.main(a.prop, tier, seed, only=a.only, replay=a.replay, verbose=a.v)
  sys.stdout.flush()
  os._exit(rc)
