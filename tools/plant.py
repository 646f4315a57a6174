#!/usr/bin/env python3
"""tools/plant.py [--nocheck] [--seeds 1,2] <id>...   Confirms planted bugs in /verif/seeded: builds, passes the
stable tests, demo passes without and fails with the patch; then runs the property's check on it."""
import fcntl, json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]; nocheck = "--nocheck" in args; checkonly = "--checkonly" in args
seeds = ["1"]
if "--seeds" in args: i = args.index("--seeds"); seeds = args[i + 1].split(","); del args[i:i + 2]
ids = [a for a in args if not a.startswith("--")]
base = json.load(open("/opt/vp/BASELINE.json")); stable = set(base["stable"])
W = "/tmp/plant.%d" % os.getpid(); os.mkdir(W)
lock = open("/tmp/plant.lock", "w")
def inside(script, timeout=900):
    p = subprocess.run(["unshare", "-rm", "bash", "-c", "mount --bind %s/repo /repo; cd /repo; %s" % (W, script)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    return p.returncode, p.stdout
bad = 0
try:
    for i in ids:
        d = os.path.join(V, "seeded", i); meta = json.load(open(d + "/meta.json"))
        shutil.rmtree(W + "/repo", ignore_errors=True); subprocess.run(["cp", "-a", "/repo", W + "/repo"], check=True)
        dd = W + "/demo"; shutil.rmtree(dd, ignore_errors=True); shutil.copytree(d, dd); os.unlink(dd + "/patch.diff"); os.unlink(dd + "/meta.json")
        msgs = []
        if not checkonly:
            fcntl.flock(lock, fcntl.LOCK_EX)
            rc, out = inside("bash /opt/vp/build.sh >/dev/null 2>&1; for i in 1 2 3; do timeout 300 bash %s/demo.sh || exit 1; done" % dd)
            if rc: msgs.append("DEMO FAILS UNPATCHED: " + out[-800:])
        if subprocess.run(["git", "-C", W + "/repo", "apply", d + "/patch.diff"]).returncode: print(i, "PATCH DOES NOT APPLY"); bad = 1; continue
        if not checkonly:
            rc, out = inside("bash /opt/vp/test.sh %s/out.json 2>&1" % W)
            r = json.load(open(W + "/out.json")); miss = stable - set(r["passed"])
            if miss: msgs.append("TESTS FAIL: %s %s" % (sorted(miss)[:5], out[-600:] if len(miss) > 100 else ""))
            rc, out = inside("timeout 300 bash %s/demo.sh" % dd)
            if rc == 0: msgs.append("DEMO PASSES PATCHED")
            else: print(i, "demo:", out.strip()[-300:])
            fcntl.flock(lock, fcntl.LOCK_UN)
        print(i, "CONFIRMED" if not msgs else "BAD " + " | ".join(msgs)) ; bad |= bool(msgs); sys.stdout.flush()
        if not nocheck:
            for s in seeds:
                e = dict(os.environ, VERIF_REPO=W + "/repo", VERIF_BUILD=W + "/b", VERIF_OUT=W + "/o", VERIF_SEED=s, VERIF_TIER="quick")
                p = subprocess.run(["python3", V + "/run.py", meta["property"], "quick"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=e)
                print(i, meta["property"], "seed", s, "CAUGHT" if p.returncode == 1 else "MISSED rc=%d" % p.returncode, "|", p.stdout.strip()[:500].replace("\n", " ~ ")); sys.stdout.flush()
finally:
    shutil.rmtree(W, ignore_errors=True)
sys.exit(bad)
