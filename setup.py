#!/usr/bin/env python3
"""Setup: check that the toolchain works offline and the harness builds against /repo."""
import sys
import check
try:
    check.build(["chk", "release", "bchk", "brelease"])
except check.Inconclusive as e:
    print(e)
    sys.exit(2)
