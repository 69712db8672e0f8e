"""Prints the table of planted changes for DESIGN.md (from seeded/*/meta.json)."""
import json, os
for i in sorted(os.listdir("seeded")):
    m = json.load(open(f"seeded/{i}/meta.json"))
    print(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
