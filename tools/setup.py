#!/usr/bin/env python3
"""Setup: nothing is pre-built (every check compiles what it needs from /repo); verify the tools are here."""
import shutil, sys
missing = [t for t in ("g++", "python3") if not shutil.which(t)]
print("missing: %s" % missing if missing else "ok")
sys.exit(1 if missing else 0)
