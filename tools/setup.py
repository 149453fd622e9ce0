"""Warms the build caches in /verif/.work (the checks work without it)."""
import sys
sys.path[:0] = ["/verif/tools"]
import os
sys.path[:0] = [os.path.dirname(os.path.abspath(__file__))]
import check
import common
try:
    common.expand()
except Exception as e:
    print("expansion:", str(e)[:200])
print(check.build_harness())
