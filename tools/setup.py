#!/usr/bin/env python3
"""setup_cmd: checks that the tools are there. Checks build what they need
themselves, from /repo's working tree, on every run."""
import os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missing = [t for t in ("gcc", "g++", "clang", "clang++") if not shutil.which(t)]
if missing:
    print("missing tools:", missing)
    sys.exit(1)
for d in ("evidence", "build", "replays"):
    os.makedirs(os.path.join(V, d), exist_ok=True)
subprocess.check_call([sys.executable, os.path.join(V, "tools", "check.py"), "--selftest"])
print("ok")
