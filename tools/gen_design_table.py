#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json and a log of try_seeds.sh."""
import json, glob, os, sys, re
res = {}
for l in open(sys.argv[1]) if len(sys.argv) > 1 else []:
    m = re.match(r"(\S+) (C\d+) rc=(\d+) (\d+)s (.*)", l)
    if m: res[m[1]] = (m[3], m[5])
print("| planted bug | property | needs | caught by |\n|---|---|---|---|")
for d in sorted(glob.glob("/verif/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    r = res.get(i)
    how = "?" if not r else ((f"{m['property']} quick, " + re.sub(r"^C\d+ ", "", r[1]).split(":")[0]) if r[0] == "1" else "missed")
    print(f"| {i} | {m['property']} | {m['needs']} | {how} |")
