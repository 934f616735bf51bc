#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "| Planted bug | Needs | Breaks | First |"


def main():
    path = os.path.join(HERE, "DESIGN.md")
    head = open(path).read().split(MARK)[0]
    missed = dict(l.split(None, 1) for l in open(os.path.join(HERE, "gen", "missed-first.txt")) if l.strip())
    rows = [MARK, "|---|---|---|---|"]
    base = os.path.join(HERE, "seeded")
    for i in sorted(os.listdir(base)):
        m = json.load(open(os.path.join(base, i, "meta.json")))
        rows.append("| `%s` | %s | %s | %s |" % (i, m["needs"], m["what_it_breaks"],
                                              missed[i].strip() if i in missed else "caught"))
    with open(path, "w") as f:
        f.write(head + "\n".join(rows) + "\n")


main()
