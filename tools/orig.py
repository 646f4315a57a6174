#!/usr/bin/env python3
"""tools/orig.py: for every planted bug, how many lines of the original repository (by git blame) its patch removes."""
import glob, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "0bae237"; cache = {}
def blame(f):
    if f not in cache:
        out = subprocess.run(["git", "-C", "/repo", "blame", "-s", "--abbrev=12", f], stdout=subprocess.PIPE, text=True).stdout.splitlines()
        full = subprocess.run(["git", "-C", "/repo", "rev-parse", BASE], stdout=subprocess.PIPE, text=True).stdout.strip()
        anc = set(subprocess.run(["git", "-C", "/repo", "rev-list", full], stdout=subprocess.PIPE, text=True).stdout.split())
        cache[f] = [any(a.startswith(l.split()[0].lstrip("^")) for a in anc) for l in out]
    return cache[f]
for d in sorted(glob.glob(V + "/seeded/*")):
    f = None; orig = mine = 0
    for l in open(d + "/patch.diff"):
        if l.startswith("--- a/"): f = l[6:].strip()
        elif l.startswith("@@"): n = int(re.match(r"@@ -(\d+)", l).group(1)) - 1
        elif l.startswith("-") and not l.startswith("---"):
            if len(l.strip()) > 2 and not l[1:].strip().startswith("//"):
                if blame(f)[n]: orig += 1
                else: mine += 1
            n += 1
        elif l[0] == " ": n += 1
    print("%-32s original %d, added by fixes %d%s" % (os.path.basename(d), orig, mine, "" if orig else "   <-- does not count"))
