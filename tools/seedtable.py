#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# What a change that was first missed led to.
GREW = {
    "e06-serial": "functions that use the library while it calls them (E06, L03, L06)",
    "e01-long-list-keys": "lists with literals that are close to each other",
    "t07-clone-spare": "subtrees of every form, arrays of 4 and 5 elements",
    "e04-local": "checks run in a time zone that is not UTC",
    "t05-node-pool": "preemption at memory accesses inside the C functions",
    "t03-runes": "errors after text of every kind",
    "i01-share": "target texts and names that are almost the same",
    "t06-finalizer": "histories with garbage collection; crashes confirmed by whole workers",
    "l08-graphql-cache": "histories of requests to one server",
}
d = open(os.path.join(V, "DESIGN.md")).read()
head = d[:d.index("| change | caught by")]
rows = ["| change | caught by | needs | first missed; led to |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    i = f.split("/")[-2]
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], m.get("grew") or GREW.get(i, "")))
open(os.path.join(V, "DESIGN.md"), "w").write(head + "\n".join(rows) + "\n")
