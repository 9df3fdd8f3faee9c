"""writes sa/known_functions.txt: the functions the rules were confirmed on"""
import ast
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.inline import TABLE, functions
from sa.srcmodel import EXCLUDE, PKG, REPO

out = set()
d = os.path.join(REPO, PKG)
for fn in sorted(os.listdir(d)):
    if fn.endswith(".py") and fn not in EXCLUDE:
        with open(os.path.join(d, fn), encoding="utf-8") as fh:
            out |= {q for q, *_ in functions(fn[:-3], ast.parse(fh.read()))}
with open(TABLE, "w", encoding="utf-8") as fh:
    fh.write("# functions of the package the rules were confirmed on; others are put back into their callers (sa/inline.py)\n")
    fh.write("".join(x + "\n" for x in sorted(out)))
print(len(out))
