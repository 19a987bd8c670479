#!/usr/bin/env python3
"""Prints the 'fixed:' lines of known_findings.txt from the fix commits."""
import subprocess, re, os
P = {"reject incomplete UUID": "C01", "report over-long numbers": "C03", "a float is not also": "C02", "read and write all the 64": "C02",
     "write integral floats": "C02", "do not write form feeds": "C02", "refuse empty and oversized": "C04", "decode a \\u escape": "C07",
     "reject over-long UTF-8": "C07", "parse hash texts": "C24", "write the id of an op": "C02", "do not garble chars": "C05",
     "read the strings of an Op": "C23", "Op::Amend": "C23", "end a chunk with the last": "C06", "start every frame": "C08"}
def extra():
    f = os.path.join(os.path.dirname(__file__), "fixed_map.txt")
    for l in open(f) if os.path.exists(f) else []:
        a, b = l.rstrip("\n").split("\t")
        P[b] = a
extra()
out = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout
for l in out.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "): continue
    s = s[5:]
    k = [v for q, v in P.items() if s.startswith(q)]
    print("fixed: property=%s %s %s" % (k[0] if k else "C??", h, s))
