#!/usr/bin/env python3
"""prints the table of planted bugs for DESIGN.md from seeded/*/meta.json"""
import json, os
S = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
print("| planted bug | property whose quick check reports it | what it breaks |\n|---|---|---|")
for d in sorted(os.listdir(S)):
    m = json.load(open(f"{S}/{d}/meta.json"))
    print(f"| {d} | {m['property']} | {m['what_it_breaks']} |")
