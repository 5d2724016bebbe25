#!/usr/bin/env python3
"""setup_cmd: the tools the checks rely on are there."""
import shutil, subprocess, sys
for t in ("g++", "clang++", "python3", "python3-vt"):
    if not shutil.which(t):
        print("missing tool", t); sys.exit(1)
subprocess.check_call(["python3-vt", "-c", "import hypothesis, numpy"])
print("ok")
