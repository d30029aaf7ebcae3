#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property, caught by its check | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    c = m.get("not_caught")
    rows.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']}{' (missed: ' + c + ')' if c else ''} | {m['what_it_breaks']} | {m['needs']} |")
t = open(V + "/DESIGN.md").read()
t = re.sub(r"(<!-- seeded -->\n).*?(<!-- /seeded -->)", lambda k: k.group(1) + "\n".join(rows) + "\n" + k.group(2), t, flags=re.S)
open(V + "/DESIGN.md", "w").write(t)
