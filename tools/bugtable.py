"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | caught by | needs |", "|---|---|---|"]
for d in sorted(os.listdir(f"{V}/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['needs']} |")
s = open(f"{V}/DESIGN.md").read()
s = re.sub(r"\| bug \| caught by.*?(?=\n[^|]|\Z)", lambda _: "\n".join(rows) + "\n", s, flags=re.S)
open(f"{V}/DESIGN.md", "w").write(s)
