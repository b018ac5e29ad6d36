#!/usr/bin/env python3
"""Setup: nothing is built ahead (each check builds from /repo's current tree); verifies the tools are there."""
import os, shutil, sys
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence"), exist_ok=True)
missing = [t for t in ("gcc", "g++", "clang", "clang++", "python3-vt") if not shutil.which(t)]
print("missing: %s" % missing if missing else "tools present")
sys.exit(1 if missing else 0)
