#!/usr/bin/env python3
"""Nothing has to be built ahead of the checks; verifies that the tools they use are present."""
import shutil, sys
missing = [t for t in ("g++", "valgrind") if not shutil.which(t)]
if missing:
    sys.exit("missing tools: " + ", ".join(missing))
print("ok")
