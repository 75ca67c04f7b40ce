"""Setup command: build every instrumented configuration once (checks rebuild what changed)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
for c in ("asan", "plain", "msan"):
    print(build(c))
print(build_fork("asan"))
print(build_fork("msan"))
