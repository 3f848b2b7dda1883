#!/usr/bin/env python3
"""orig.py PATCH...: the lines a patch removes that are those of the original repository (others are of fix commits)"""
import re, subprocess, sys
for f in sys.argv[1:]:
    path = None
    for l in open(f):
        if l.startswith("--- a/"):
            path = l[6:].strip()
            b = subprocess.run(["git", "-C", "/repo", "blame", "-s", path], capture_output=True, text=True).stdout.splitlines()
            orig = [x.startswith("^") for x in b]
        elif m := re.match(r"@@ -(\d+)", l):
            n = int(m[1])
        elif path and l[0] in " -":
            if l[0] == "-" and not l.startswith("---"):
                print("orig" if orig[n - 1] else "OWN ", path, n, l.rstrip()[:100])
            n += 1
