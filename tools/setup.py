"""Build the variants of the native code the checks need (they rebuild them
themselves whenever /repo's sources differ)."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import native, tsan

for v in ("plain", "bounds", "asan", "tsan"):
    native.build(v)
tsan.build_shim()
print("setup done")
