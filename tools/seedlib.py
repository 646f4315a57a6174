"""Writes /verif/seeded/<id>/ from edits of the repository and a demonstration program."""
import json, os, shutil, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# builds demo.cc against the library in /repo/_build and runs it in a scratch folder
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d) || exit 99; trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -g -pthread %s -I/repo/src/include "$d/demo.cc" -o "$t/demo" -L/repo/_build/src -lcppev -Wl,-rpath,/repo/_build/src -ldl -lrt || exit 9
cd "$t" && %stimeout %d ./demo
'''
def seed(id, prop, needs, breaks, edits, demo_cc, flags="", limit=120, pre="", extra=None, demo_sh=None):
    d = os.path.join(V, "seeded", id); os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(); r = t + "/r"
    try:
        subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
        removed_ok = False
        for f, old, new in edits:
            p = os.path.join(r, f); s = open(p).read()
            if s.count(old) != 1: print(id, "EDIT MATCHES %d TIMES in %s: %r" % (s.count(old), f, old[:60])); return
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", r, "diff"], stdout=subprocess.PIPE, text=True).stdout
        base = set()
        for f, _, _ in edits:
            base |= set(l.strip() for l in subprocess.run(["git", "-C", r, "show", "0bae237:" + f], stdout=subprocess.PIPE, text=True).stdout.splitlines())
        rem = [l[1:].strip() for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        orig = [l for l in rem if l in base and len(l) > 3]
        if not orig: print(id, "WARNING: removes no original line; removed:", rem)
        elif len(orig) < len(rem): print(id, "note: removed lines not in base:", [l for l in rem if l and l not in base])
        open(d + "/patch.diff", "w").write(diff)
    finally:
        shutil.rmtree(t)
    if demo_cc: open(d + "/demo.cc", "w").write(demo_cc.lstrip("\n"))
    open(d + "/demo.sh", "w").write(demo_sh or DEMO % (flags, pre, limit)); os.chmod(d + "/demo.sh", 0o755)
    for n, c in (extra or {}).items(): open(os.path.join(d, n), "w").write(c)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
