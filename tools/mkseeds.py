"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/."""

import glob
import json
import os

START = "| planted bug | property | what it breaks | needs |\n"
rows = []
for path in sorted(glob.glob("/verif/seeded/*/meta.json")):
    meta = json.load(open(path))
    text = [str(meta[k]).strip().replace("|", "/").replace("\n", " ") for k in ("what_it_breaks", "needs")]
    rows.append(f"| {os.path.basename(os.path.dirname(path))} | {meta['property']} | {text[0]} | {text[1]} |\n")
design = open("/verif/DESIGN.md").read()
for mark in ("@@SEEDED@@", START):
    if mark in design:
        design = design[: design.index(mark)]
open("/verif/DESIGN.md", "w").write(design + START + "|---|---|---|---|\n" + "".join(rows))
print(len(rows))
