"""Writes pbt/constants.json: the constants in the source of the tree that the checks were built on.  They only
steer what is generated (pbt/harvest.py)."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pbt import common, harvest

s, n, _ = harvest.constants(os.path.join(common.REPO, "src"))
json.dump({"strings": dict(sorted(s.items())), "numbers": dict(sorted(n.items()))}, open(harvest.BASE, "w"), indent=0)
print(len(s), "strings,", len(n), "numbers")
