"""Writes mc/calls.json: the parameters each call of mc/calls.py reads."""
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import jax  # pylint: disable=wrong-import-position
jax.config.update('jax_enable_x64', True)
from mc import calls  # pylint: disable=wrong-import-position

PATH = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'mc', 'calls.json')
old = json.load(open(PATH)) if os.path.exists(PATH) else {}
for group in sys.argv[1:] or calls.GROUPS:
  old[group] = {name: calls.fields_read(make) for name, make in calls.load(group).items()}
with open(PATH, 'w') as f:
  json.dump(old, f, indent=0, sort_keys=True)
