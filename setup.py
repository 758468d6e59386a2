#!/usr/bin/env python3
"""Builds every flavour of the library and every harness once, so that the checks start warm."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import build, checks
bad = 0
for p, c in checks.CHECKS.items():
    for ps in c.get("parts", []):
        try:
            build.harness(ps["harness"], ps.get("flavour", "plain"), ps.get("defs", ()), ps.get("extra_src", ()))
        except build.BuildError as e:
            print("build of %s failed: %s" % (ps["harness"], str(e)[:2000]))
            bad = 1
sys.exit(bad)
