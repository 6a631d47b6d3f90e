#!/usr/bin/env python3
"""Lists planted bugs that change lines which are not in the original commit."""
import os, re, subprocess, json
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = subprocess.run("git -C /repo rev-list --max-parents=0 HEAD", shell=True, capture_output=True, text=True).stdout.split()[-1]
for i in sorted(os.listdir(HERE + "/seeded")):
    f, n, bad = None, 0, []
    for l in open(f"{HERE}/seeded/{i}/patch.diff", encoding="utf-8", errors="surrogateescape", newline=""):
        if l.startswith("--- a/"): f = l[6:].strip()
        elif l.startswith("@@"): n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-"):
            b = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-l", "-L", f"{n},{n}", f], capture_output=True, text=True, errors="surrogateescape").stdout
            if base[:30] not in b: bad.append((f, n))
            n += 1
        elif not l.startswith(("+", "\\", "diff", "index")): n += 1
    if bad: print(i, "NOT ORIGINAL", bad)
