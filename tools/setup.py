#!/usr/bin/env python3
"""setup: only verifies that the tools the checks need are there (every check builds what it needs itself)"""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
miss = [t for t in ("g++", "java") if not shutil.which(t)] + [j for j in vlib.JARS.split(":") if not os.path.exists(j)]
if miss:
    print("missing:", miss)
    sys.exit(1)
for d in ("build", "out", "evidence"):
    os.makedirs(vlib.VERIF + "/" + d, exist_ok=True)
print("ok")
