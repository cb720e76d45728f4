"""Prints the table of planted changes for DESIGN.md."""
import glob
import json
import os

by = {}
for f in sorted(glob.glob(os.path.join(os.path.dirname(__file__), "..", "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    by.setdefault(m["property"], []).append((f.split("/")[-2], m["what_it_breaks"]))
print("| change | check that catches it | what it breaks |\n|---|---|---|")
for p in sorted(by):
    for k, v in by[p]:
        print(f"| {k} | {p} | {v.strip().replace('|', '/')} |")
