#!/usr/bin/env python3
"""Writes known_findings.jsonl: one 'fixed:' line per fix commit in /repo, and the open findings below."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "016d6dd"
# commit subject (after 'fix: ') prefix -> property
FIXED = json.load(open(os.path.join(V, "tools", "fixed.json")))
OPEN = json.load(open(os.path.join(V, "tools", "open.json")))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", BASE + "..HEAD"], capture_output=True, text=True).stdout
out, missing = [], []
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    m = [p for k, p in FIXED.items() if s.lower().startswith(k.lower())]
    if not m:
        missing.append(s); continue
    out.append("fixed: property=%s %s %s" % (m[0], h, s))
for o in OPEN:
    out.append(json.dumps(dict(o, status="open")))
open(os.path.join(V, "known_findings.jsonl"), "w").write("\n".join(out) + "\n")
for s in missing: print("no property for:", s)
