#!/usr/bin/env python3
"""Nothing needs to be built ahead: every check compiles its workloads against /repo's current tree.
Verifies that the tools the checks use are here."""
import shutil, sys
missing = [t for t in ("clang++", "g++", "valgrind") if not shutil.which(t)]
print("missing: " + ", ".join(missing) if missing else "tools present")
sys.exit(1 if missing else 0)
