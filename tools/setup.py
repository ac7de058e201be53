#!/usr/bin/env python3
"""Sanity of the toolchain: parses every module of the specification and
builds the drivers once (each check builds what it needs again)."""
import glob, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *

for m in sorted(glob.glob(os.path.join(SPEC, "*.tla"))):
    p = subprocess.run(["java", "-cp", JARS, "tla2sany.SANY", os.path.basename(m)], cwd=SPEC,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode or "*** Errors" in p.stdout or "Could not parse" in p.stdout:
        print(p.stdout[-2000:])
        sys.exit(1)
build(["parser", "codec", "misc"], "dev")
build(["misc"], "int")
print("ok")
