#!/usr/bin/env python3
"""addfixed.py PROPERTY COMMIT...: record repairs in known_findings.txt"""
import subprocess, sys
with open("/verif/known_findings.txt", "a") as f:
    for h in sys.argv[2:]:
        l = subprocess.run(["git", "-C", "/repo", "log", "-1", "--format=%h %s", h], capture_output=True, text=True).stdout.strip()
        h, s = l.split(" ", 1)
        f.write("fixed: property=%s %s %s\n" % (sys.argv[1], h, s.replace("fix: ", "")))
