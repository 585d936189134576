#!/usr/bin/env python3
"""Rewrites the fixed: lines of known_findings.txt from the fix: commits in /repo (run by hand, never by a check)."""
import subprocess
M = [l.rstrip("\n").split("\t") for l in open("/verif/tools/fixes.tsv") if l.strip()]
keep = [l.rstrip("\n") for l in open("/verif/known_findings.txt") if not l.startswith("fixed:")]
out = list(keep)
for l in reversed(subprocess.check_output(["git", "-C", "/repo", "log", "--oneline"], text=True).splitlines()):
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"): continue
    hit = [m for m in M if m[0] in s]
    assert len(hit) == 1, (s, hit)
    out.append(f"fixed: property={hit[0][1]} {h} {hit[0][2]}")
open("/verif/known_findings.txt", "w").write("\n".join(out) + "\n")
