#!/usr/bin/env python3
"""Checks build everything they need themselves; this only verifies that the tools are there."""
import shutil, sys
missing = [t for t in ("g++", "clang++", "gcc") if not shutil.which(t)]
print("missing: %s" % missing if missing else "ok")
sys.exit(1 if missing else 0)
