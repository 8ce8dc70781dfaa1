#!/usr/bin/env python3
"""Checks that the tools needed by the checks are there ; each check builds what it needs by itself."""
import shutil, sys
missing = [t for t in ("gcc", "g++", "clang", "clang++", "ar", "python3") if not shutil.which(t)]
print("missing tools: %s" % missing if missing else "setup: ok"); sys.exit(1 if missing else 0)
