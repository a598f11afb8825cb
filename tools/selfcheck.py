#!/usr/bin/env python3
"""setup: nothing to install; confirm that the tools the checks use are there."""
import shutil, sys
missing = [t for t in ("cmake", "ninja", "gcc", "g++", "clang", "clang++", "valgrind", "git") if not shutil.which(t)]
print("missing:", missing) if missing else print("tools present")
sys.exit(1 if missing else 0)
