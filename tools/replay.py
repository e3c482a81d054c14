#!/usr/bin/env python3
"""replay.py FILE -- rebuild the harness from /repo and re-run a saved case."""
import os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
from props import PROPS

path = sys.argv[1]
text = open(path).read()
prop = re.search(r"# property (\w+):", text).group(1)
m = re.search(r"# variant (\S+) tier (\S+)", text)
vname, tier = m.group(1), m.group(2)
v = next(v for v, _ in PROPS[prop][tier] if v.name == vname)
outdir = os.path.join(BUILD, "replay-" + prop)
shutil.rmtree(outdir, ignore_errors=True)
os.makedirs(outdir)
with ThreadPoolExecutor(NPROC) as pool:
    link, exe = v.build(pool, outdir)
    link()
rc = subprocess.run([exe, "--replay", path]).returncode
shutil.rmtree(outdir, ignore_errors=True)
sys.exit(rc)
