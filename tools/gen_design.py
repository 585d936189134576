#!/usr/bin/env python3
"""Fills the tables of DESIGN.md from DESIGN.in.md, checks.py, known_findings.txt and seeded/*/meta.json + seeded/results.json."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, here)
from checks import CHECKS, NOT_APPLICABLE
P = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
rows = []
for p in P:
    c = CHECKS.get(p["id"])
    if c: rows.append(f"| {p['id']} {p['title']} | {c['technique']} | {c['rule']} | {c['bound']} |")
    else: rows.append(f"| {p['id']} {p['title']} | no check: {NOT_APPLICABLE.get(p['id'], 'not built yet')} | | |")
find = ["* " + l.strip() for l in open(os.path.join(here, "known_findings.txt")) if l.startswith(("fixed:", "finding:"))]
sd = os.path.join(here, "seeded"); seeded = ["| bug | property | what it breaks | what it needs | caught by |", "|---|---|---|---|---|"]
res = json.load(open(os.path.join(here, "tools", "seeded_results.json"))) if os.path.exists(os.path.join(here, "tools", "seeded_results.json")) else {}
if os.path.isdir(sd):
    for d in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, d, "meta.json"))); cl = lambda s: str(s).replace("|", "/").replace("\n", " ")
        seeded.append(f"| {d} | {m['property']} | {cl(m['what_it_breaks'])} | {cl(m['needs'])} | {res.get(d, '?')} |")
s = open(os.path.join(here, "tools", "DESIGN.in.md")).read()
s = s.replace("@TABLE@", "\n".join(rows)).replace("@FINDINGS@", "\n".join(find)).replace("@SEEDED@", "\n".join(seeded))
open(os.path.join(here, "DESIGN.md"), "w").write(s)
