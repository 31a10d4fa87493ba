#!/usr/bin/env python3
"""setup_cmd: check the tools are there and compile the library once."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
for t in ("gcc", "g++", "python3"):
    if not shutil.which(t):
        sys.exit("missing tool: " + t)
t = build.locked_tree()
t.objects("rel")
print("setup done: " + t.dir)
