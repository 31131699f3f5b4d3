#!/usr/bin/env python3
"""Nothing to build ahead: every check compiles its harness from /repo. Only verifies the tools."""
import os, shutil, subprocess, sys
for t in ("g++", "java", "gzip", "bzip2", "zcat", "bzcat", "curl", "xml2-config"):
    if not shutil.which(t):
        sys.exit("missing tool " + t)
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(V + "/evidence", exist_ok=True)
os.makedirs(V + "/replays", exist_ok=True)
r = subprocess.run(["java", "-cp", "/opt/veriftools/tla/tla2tools.jar", "tlc2.TLC", "-h"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
print("ok")
