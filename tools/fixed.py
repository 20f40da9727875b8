#!/usr/bin/env python3
"""Append to known_findings.txt a "fixed:" line for each fix commit in /repo, with the property given in FIX."""
import subprocess, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {}
for line in open(os.path.join(HERE, "tools", "fixprops.txt")):
    p, s = line.rstrip("\n").split(" ", 1)
    PROP[s] = p
path = os.path.join(HERE, "known_findings.txt")
old = open(path).read() if os.path.exists(path) else ""
lines = [l for l in old.splitlines() if not l.startswith("fixed:")]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        w = s[5:]
        if w not in PROP:
            print("no property for:", w); continue
        lines.append("fixed: property=%s %s before it, this failed: %s" % (PROP[w], h, w))
open(path, "w").write("\n".join(lines) + "\n")
