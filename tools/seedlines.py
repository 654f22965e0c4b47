#!/usr/bin/env python3
"""seedlines.py [BASE]: says which planted changes touch lines that were not in
the original repository (BASE, the first commit below all of ours)."""
import glob, os, re, subprocess, sys

base = sys.argv[1] if len(sys.argv) > 1 else "26fd219"
ours = set(subprocess.run(["git", "-C", "/repo", "rev-list", base + "..HEAD"],
                          capture_output=True, text=True).stdout.split())
for p in sorted(glob.glob("/verif/seeded/*/patch.diff")):
    f, n, bad, count = None, 0, [], 0
    for l in open(p):
        if l.startswith("--- "):
            f = l[6:].strip()
        elif l.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-"):
            b = subprocess.run(["git", "-C", "/repo", "blame", "-l", "-s", "-L%d,%d" % (n, n), "HEAD", "--", f],
                               capture_output=True, text=True).stdout
            count += 1
            if b.split()[0].lstrip("^") in ours:
                bad.append(l.rstrip())
            n += 1
        elif l.startswith(" "):
            n += 1
    print(os.path.basename(os.path.dirname(p)), count, "lines", bad or "")
