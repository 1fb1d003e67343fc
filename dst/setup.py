"""Build what the checks need (they build it themselves if this was not run)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import simlib

simlib.build_shim()
simlib.build_mpl()
print("built", simlib.SHIM)
