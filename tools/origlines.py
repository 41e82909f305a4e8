#!/usr/bin/env python3
"""origlines.py <patch>... : which of the lines a patch removes are of the original repository (git blame)."""
import re, subprocess, sys
for p in sys.argv[1:]:
    f = None; n = 0; o = m = 0
    blame = {}
    for ln in open(p):
        ln = ln.rstrip("\n")
        if ln.startswith("--- a/"):
            f = ln[6:]
            blame[f] = [b.split()[0].lstrip("^") for b in subprocess.run(["git", "-C", "/repo", "blame", "-s", "HEAD", "--", f], capture_output=True, text=True).stdout.splitlines()]
        elif ln.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", ln).group(1))
        elif ln.startswith("-") and not ln.startswith("---"):
            if blame[f][n - 1].startswith("d11bc70"): o += 1
            else: m += 1
            n += 1
        elif ln.startswith(" "):
            n += 1
    print(p, "original:", o, "own:", m)
