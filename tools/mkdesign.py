"""DESIGN.md = tools/design_head.md + the table of planted bugs"""
import json
import os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
head = open(os.path.join(R, "tools/design_head.md"), encoding="utf-8").read().rstrip() + "\n\n| bug | property | caught by | what it breaks |\n|---|---|---|---|\n"
S = os.path.join(R, "seeded")
missed = set(open(os.path.join(R, "tools/missed.txt")).read().split()) if os.path.exists(os.path.join(R, "tools/missed.txt")) else set()
for d in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, d, "meta.json")))
    head += f"| {d} | {m['property']} | {'not caught' if d in missed else m['property']} | {m['what_it_breaks'].replace('|', '/')[:200]} |\n"
open(os.path.join(R, "DESIGN.md"), "w", encoding="utf-8").write(head)
