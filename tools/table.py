#!/usr/bin/env python3
"""Puts the results of catch.sh (logs given, later ones win) into DESIGN.md."""
import sys, os, re
r = {}
for l in open("/verif/DESIGN.md"):  # what the table has already
    m = re.match(r"\| (\S+) \| (C\d+) \| (.*) \|$", l)
    if m: r[m[1]] = (m[2], "0" if "missed" in m[3] else "1", m[3])
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r"(\S+) (C\d+) rc=(\d) \d+s (?:C\d+: )?(.*)", l)
        if m: r[m[1]] = (m[2], m[3], m[4])
ids = sorted(os.listdir("/verif/seeded"))
miss = [i for i in ids if i not in r]
rows = ["| planted bug | check | caught as |", "|---|---|---|"]
for i in ids:
    if i in r:
        p, rc, t = r[i]
        rows.append(f"| {i} | {p} | {t if rc == '1' else '**missed**'} |")
s = open("/verif/DESIGN.md").read()
t = "\n".join(rows)
if "CATCH_TABLE" in s: s = s.replace("CATCH_TABLE", t)
else: s = re.sub(r"\| planted bug \|.*?(?=\n\n|\Z)", lambda m: t, s, flags=re.S)
open("/verif/DESIGN.md", "w").write(s.rstrip() + "\n")
print("no result:", miss)
print("missed:", [i for i in ids if i in r and r[i][1] != "1"])
