#!/usr/bin/env python3
"""summ.py PROPERTY [N]: the violations of the last run, grouped by their shape"""
import re, sys, glob, collections
g = collections.OrderedDict()
for d in sorted(glob.glob("/verif/replay/%s/*/what.txt" % sys.argv[1])):
    t = open(d, errors="replace").read().split("\n")
    key = t[1][6:]; w = " ".join(t[2:])
    k = re.sub(r"0x[0-9a-f]+|\d+", "N", w)[:int(sys.argv[2]) if len(sys.argv) > 2 else 60]
    g.setdefault(k, []).append((key, w, d))
for k, v in sorted(g.items(), key=lambda x: -len(x[1])):
    print(len(v), "|", v[0][0][:100], "|", v[0][1][:220])
