#!/usr/bin/env python3
"""Driver of all checks:  run.py <property> quick|thorough      runs a check
                          run.py replay <file>                  runs a recorded violation again
Builds the library from /repo's working tree with sanitizers, links the property's monitoring
harness with the interposers, runs its cases in several processes, and judges what the monitors saw."""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARN = os.path.join(HERE, "harness")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
OUTD = os.environ.get("VERIF_OUT", HERE)
NCPU = min(8, os.cpu_count() or 8)
sys.path.insert(0, HERE)
from checks import CHECKS, LEVEL, ASSUMPTIONS   # noqa: E402

COMMON = ["-std=c++17", "-g1", "-fno-omit-frame-pointer", "-pthread", "-Wall", "-Wno-misleading-indentation", "-Wno-unused-result"]
# (the vptr check opens a pipe itself, so it misfires when descriptors are exhausted)
VARIANTS = {
    "asan": (["-O1", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all"],
             {"ASAN_OPTIONS": "detect_leaks=0:exitcode=99:abort_on_error=0:handle_abort=1:detect_stack_use_after_return=0:allocator_may_return_null=1:alloc_dealloc_mismatch=1",
              "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99"}),
    "tsan": (["-O1", "-fsanitize=thread"],
             {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:die_after_fork=0:report_signal_unsafe=0:second_deadlock_stack=1"}),
    "plain": (["-O2"], {}),
}
WRAPS = ["read", "write", "recv", "send", "close", "accept", "accept4", "connect", "recvfrom", "sendto", "epoll_wait",
         "epoll_ctl", "pipe", "pipe2", "socket", "sem_wait", "sem_post", "shm_open", "ftruncate", "mmap", "fork", "nanosleep", "kill",
         "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_cond_signal", "pthread_cond_broadcast", "pthread_cond_wait",
         "_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE"]


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def tree_hash():
    h = hashlib.sha256()
    for d in ("src/lib", "src/include", "examples"):
        for p in sorted(glob.glob(os.path.join(REPO, d, "**", "*"), recursive=True)):
            if os.path.isfile(p):
                h.update(os.path.relpath(p, REPO).encode())
                h.update(open(p, "rb").read())
    for p in sorted(glob.glob(os.path.join(HARN, "*"))) + [os.path.abspath(__file__)]:
        if os.path.isfile(p):
            h.update(p.encode())
            h.update(open(p, "rb").read())
    return h.hexdigest()[:16]


def compile_one(job):
    src, obj, flags = job
    if os.path.exists(obj):
        return None
    tmp = obj + ".%d.tmp" % os.getpid()
    r = sh(["g++"] + COMMON + flags + ["-I" + os.path.join(REPO, "src/include"), "-I" + HARN, "-c", src, "-o", tmp])
    if r.returncode:
        return "compiling %s failed:\n%s" % (src, r.stdout[-4000:])
    os.rename(tmp, obj)
    return None


def build(targets, aux=(), examples=False):
    """targets: list of (harness source, variant, extra flags); aux: list of (output, source, flags) compiled beside them;
    returns {(source, variant): executable}"""
    th = tree_hash()
    root = os.path.join(BUILD, th)
    os.makedirs(root, exist_ok=True)
    os.utime(root)
    olds = sorted((d for d in glob.glob(os.path.join(BUILD, "*")) if os.path.isdir(d)), key=os.path.getmtime)
    for d in olds[:-6]:
        if time.time() - os.path.getmtime(d) > 1800:
            shutil.rmtree(d, ignore_errors=True)
    jobs, links, res = {}, [], {}
    libsrc = sorted(glob.glob(os.path.join(REPO, "src/lib", "*.cc")))
    if not libsrc:
        raise CheckError("no library sources in " + REPO)
    for src, var, lflags in targets:
        fl = VARIANTS[var][0]
        objs = []
        for s in [os.path.join(HARN, src + ".cc"), os.path.join(HARN, "vh.cc"), os.path.join(HARN, "wrap.cc")] + libsrc:
            o = os.path.join(root, "%s-%s.o" % (var, os.path.basename(s)[:-3]))
            if s in libsrc:
                o = os.path.join(root, "%s-lib-%s.o" % (var, os.path.basename(s)[:-3]))
            jobs[o] = (s, o, fl)
            objs.append(o)
        exe = os.path.join(root, "%s-%s" % (var, src))
        res[(src, var)] = exe
        links.append((exe, ["g++"] + COMMON + fl + objs + ["-Wl,--wrap=" + w for w in WRAPS] + ["-rdynamic", "-ldl", "-lrt"] + lflags))
    def helper(a):
        exe = os.path.join(root, a[0])
        if os.path.exists(exe):
            return None
        tmp = exe + ".%d.tmp" % os.getpid()
        r = sh(["gcc" if a[1].endswith(".c") else "g++", "-g1", "-Wall"] + a[2] + [os.path.join(HARN, a[1]), "-o", tmp])
        if r.returncode:
            return "compiling %s failed:\n%s" % (a[1], r.stdout[-4000:])
        os.rename(tmp, exe)
        return None
    # big harness files first
    order = sorted(jobs.values(), key=lambda j: -os.path.getsize(j[0]))
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for err in ex.map(compile_one, order):
            if err:
                raise CheckError(err)
        def link(l):
            if os.path.exists(l[0]):
                return None
            tmp = l[0] + ".%d.tmp" % os.getpid()
            r = sh(l[1] + ["-o", tmp])
            if r.returncode:
                return "linking failed:\n" + r.stdout[-4000:]
            os.rename(tmp, l[0])
            return None
        for err in ex.map(link, list({l[0]: l for l in links}.values())):
            if err:
                raise CheckError(err)
        for err in ex.map(helper, aux):
            if err:
                raise CheckError(err)
    if examples:
        build_examples(root, sorted({v for _, v, _ in targets}), libsrc)
    os.environ["VH_AUX"] = root
    return res


def build_examples(root, variants, libsrc):
    """The shipped example programs, with their constants overridable from the environment."""
    jobs = []
    for d in sorted(glob.glob(os.path.join(REPO, "examples", "*", ""))):
        own = os.path.join(root, "ex-" + os.path.basename(d[:-1]))
        os.makedirs(own, exist_ok=True)
        for h in glob.glob(d + "*.h"):
            t = open(h).read()
            t = re.sub(r"const\s+int\s+(\w+)\s*=\s*([^;]+);", r'const int \1 = getenv("VH_\1") ? atoi(getenv("VH_\1")) : (\2);', t)
            t = re.sub(r"const\s+char\s*\*\s*(\w+)\s*=\s*(\"/tmp[^;]+);", r'const char *\1 = getenv("VH_\1") ? getenv("VH_\1") : (\2);', t)
            tmp = os.path.join(own, "%d.tmp" % os.getpid())
            open(tmp, "w").write("#include <cstdlib>\n" + t)
            os.rename(tmp, os.path.join(own, os.path.basename(h)))
        for c in sorted(glob.glob(d + "*.cc")):
            tmp = os.path.join(own, "%d.tmp" % os.getpid())
            shutil.copy(c, tmp)
            os.rename(tmp, os.path.join(own, os.path.basename(c)))
            for v in variants:
                jobs.append((os.path.join(own, os.path.basename(c)), v, os.path.join(root, "%s-ex-%s" % (v, os.path.basename(c)[:-3]))))
    mon = os.path.join(root, "exmon.o")
    r = sh(["gcc", "-g1", "-c", os.path.join(HARN, "exmon.c"), "-o", mon])
    if r.returncode:
        raise CheckError(r.stdout)
    def one(j):
        src, var, exe = j
        if os.path.exists(exe):
            return None
        tmp = exe + ".%d.tmp" % os.getpid()
        lib = [os.path.join(root, "%s-lib-%s.o" % (var, os.path.basename(s)[:-3])) for s in libsrc]
        r = sh(["g++"] + COMMON + VARIANTS[var][0] + ["-I" + os.path.join(REPO, "src/include"), src, mon] + lib + ["-Wl,--wrap=close", "-Wl,--wrap=open", "-ldl", "-lrt", "-o", tmp])
        if r.returncode:
            return "compiling %s failed:\n%s" % (src, r.stdout[-4000:])
        os.rename(tmp, exe)
        return None
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for err in ex.map(one, jobs):
            if err:
                raise CheckError(err)


def summarize(text, variant):
    """One line naming what a sanitizer or a crash reported, stable across runs."""
    m = re.search(r"SUMMARY: (\S+): (.*)", text)
    if m:
        s = m.group(2)
        s = re.sub(r"/\S*/", "", s)
        s = re.sub(r"0x[0-9a-f]+|\(BuildId[^)]*\)|:\d+:\d+|:\d+", "", s)
        return (m.group(1) + " " + s).strip()
    m = re.search(r"(\S+:\d+:\d+): runtime error: (.*)", text)
    if m:
        return "UndefinedBehaviorSanitizer " + re.sub(r"/\S*/|0x[0-9a-f]+|:\d+", "", m.group(1) + " " + m.group(2))
    m = re.search(r"terminate called[^\n]*\n(?:\s*what\(\):\s*([^\n]*))?", text)
    if m:
        return "terminate " + re.sub(r"\d+", "N", (m.group(1) or ""))[:80]
    return ""


class Shard:
    def __init__(self, exe, variant, src, mode, frm, step, count, seed, budget, thorough, tmp, tag):
        self.meta = dict(variant=variant, harness=src, mode=mode, seed=seed)
        self.out = os.path.join(tmp, tag + ".jsonl")
        self.err = os.path.join(tmp, tag + ".err")
        scratch = os.path.join(tmp, "s" + tag)
        os.makedirs(scratch)
        env = dict(os.environ)
        env.update(VARIANTS[variant][1])
        env.pop("LD_PRELOAD", None)
        env["TZ"] = env.get("TZ", "UTC")
        env["VERIF_REPO"] = REPO
        env["LD_LIBRARY_PATH"] = env["VH_AUX"]
        cmd = [exe, "--from", str(frm), "--step", str(step), "--count", str(count), "--seed", str(seed),
               "--budget", str(budget), "--out", self.out, "--mode", mode, "--thorough", "1" if thorough else "0", "--scratch", scratch]
        self.cmd = cmd
        self.t0 = time.time()
        self.limit = budget + 420
        self.p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=open(self.err, "wb"),
                                  start_new_session=True, env=env, cwd=scratch)

    def poll(self):
        if self.p.poll() is None and time.time() - self.t0 < self.limit:
            return False
        self.killed = self.p.poll() is None
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()
        return True

    def result(self):
        recs = []
        if os.path.exists(self.out):
            for l in open(self.out, errors="replace"):
                try:
                    recs.append(json.loads(l))
                except ValueError:
                    pass
        err = open(self.err, errors="replace").read()
        m = re.search(r"^(=+\n)?(==\d+== ?ERROR|WARNING: ThreadSanitizer|ThreadSanitizer:|.*runtime error:)", err, re.M)
        if m and m.start() > 1000:       # the report rather than the log before it
            err = err[m.start() - 300:]
        if len(err) > 9000:
            err = err[:6000] + "\n...\n" + err[-2500:]
        case = max([r.get("case", -1) for r in recs if r.get("t") == "start"] or [-1])
        done = [r for r in recs if r.get("t") == "done"]
        for p in recs:      # observed in forked children
            if done and p.get("t") == "part":
                for k, n in p["counters"].items():
                    done[0]["counters"][k] = done[0]["counters"].get(k, 0) + n
                done[0]["sigs"] += p["sigs"]
                done[0]["samples"] = (done[0]["samples"] + p["samples"])[:4]
        notes = [r for r in recs if r.get("t") == "note"]
        rc = self.p.returncode
        v = None
        for r in recs:
            if r.get("t") == "viol":
                v = dict(key=r["key"], msg=r["msg"], case=r["case"])
                break
        faults = []
        for r in recs:      # faults that did not end the run
            if r.get("t") == "known" and not any(f["key"] == r["key"] for f in faults):
                faults.append(dict(self.meta, key=r["key"], msg=r["msg"], case=r["case"], notes=[], stderr=""))
        bro = [r for r in recs if r.get("t") == "broken"]
        if v is None and not bro and not (done and rc == 0):
            hang = any(r.get("t") == "hang" for r in recs)
            if self.killed:
                v = dict(key="overrun", msg="did not finish", case=case)
            elif hang:
                v = dict(key="hang", msg="no progress; its threads and children:\n" + err[-2500:], case=case)
            else:
                s = summarize(err, self.meta["variant"])
                v = dict(key="crash " + (s or "exit status %s" % rc), msg=(err or "exit status %s" % rc), case=case)
        if v is not None:
            v.update(self.meta)
            v["notes"] = [n["msg"] for n in notes][-5:]
            v["stderr"] = err
        return dict(done=done[0] if done else None, viol=v, faults=faults, broken=bro[0]["msg"] if bro and v is None else None,
                    cases=(done[0]["cases"] if done else len([r for r in recs if r.get("t") == "start"])))


def run_shards(plan, thorough, seed, tmp, width, rnd=0):
    """plan: list of (exe, variant, src, mode, cases, budget, shards); later rounds go on with further cases"""
    todo = []
    for i, (exe, var, src, mode, cases, budget, shards) in enumerate(plan):
        if rnd and cases <= shards:
            continue
        for j in range(shards):
            if j < cases:
                todo.append((exe, var, src, mode, rnd * cases + j, shards, (rnd + 1) * cases, seed, budget, thorough, tmp, "%d-%d-%d" % (rnd, i, j)))
    running, results = [], []
    stop = False
    todo.sort(key=lambda t: t[2] != "slow")
    while todo or running:
        # (the slow ones sleep most of the time)
        while todo and len([s for s in running if s.meta["harness"] != "slow"]) < width and not stop:
            running.append(Shard(*todo.pop(0)))
        if stop:
            todo = []
        for s in list(running):
            if s.poll():
                running.remove(s)
                r = s.result()
                results.append(r)
                if r["viol"] or r["broken"]:
                    stop = True     # the first finding decides; the rest is stopped
                    for o in running:
                        try:
                            os.killpg(o.p.pid, signal.SIGKILL)
                        except ProcessLookupError:
                            pass
                        o.p.wait()
                    running = []
                    break
        time.sleep(0.02)
    return results


def count(results):
    counters = {}
    for r in results:
        if r["done"]:
            for k, n in r["done"]["counters"].items():
                counters[k] = max(counters.get(k, 0), n) if k.startswith("max_") else counters.get(k, 0) + n
    return counters


def known_findings():
    res = []
    p = os.path.join(HERE, "known-findings.txt")
    for l in open(p):
        m = re.match(r"KNOWN-FINDING: property=(\S+) key=(.*?) :: (.*)", l)
        if m:
            res.append(m.groups())
    return res


def main():
    if sys.argv[1] == "replay":
        r = json.load(open(sys.argv[2]))
        exe = build([(r["harness"], r["variant"], CHECKS[r["property"]].get("ldflags", []))], CHECKS[r["property"]].get("aux", ()), CHECKS[r["property"]].get("examples", False))[(r["harness"], r["variant"])]
        tmp = tempfile.mkdtemp(prefix="vh-")
        try:
            s = Shard(exe, r["variant"], r["harness"], r["mode"], r["case"], 10**9, r["case"] + 1, r["seed"], 600, r["thorough"], tmp, "r")
            while not s.poll():
                time.sleep(0.05)
            res = s.result()
            found = ([res["viol"]] if res["viol"] else []) + res["faults"]
            print(json.dumps(found, indent=1) if found else "no violation this time")
            sys.exit(1 if found else 0)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    if sys.argv[1] == "selftest":      # the tools the checks need are there
        for tool in (["g++", "--version"],):
            if sh(tool).returncode:
                raise CheckError("missing " + tool[0])
        shutil.rmtree(BUILD, ignore_errors=True)
        print("ok")
        return
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    thorough = tier == "thorough"
    cfg = CHECKS[prop]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="vh-")
    os.chmod(tmp, 0o755)
    try:
        exes = build([(src, var, cfg.get("ldflags", [])) for src, var, *_ in cfg["runs"]], cfg.get("aux", ()), cfg.get("examples", False))
        tb = time.time() - t0
        plan = []
        for src, var, mode, quick, full in cfg["runs"]:
            cases, budget, shards = full if thorough else quick
            plan.append((exes[(src, var)], var, src, mode, cases, budget, shards))
        results, minimum, rnd = [], cfg.get("minimum", {}), 0
        while True:
            t1 = time.time()
            results += run_shards(plan, thorough, seed, tmp, cfg.get("width", NCPU), rnd)
            rnd += 1
            if any(r["broken"] or r["viol"] for r in results):
                break
            counters = count(results)
            # a busy machine gets further rounds until enough was observed
            if thorough or rnd >= 8 or time.time() - t0 + 1.5 * (time.time() - t1) > 500 or all(counters.get(k, 0) >= n for k, n in minimum.items()):
                break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        for f in glob.glob("/dev/shm/*vh%d_*" % os.getpid()):
            os.unlink(f)
    broken = [r["broken"] for r in results if r["broken"]]
    viols = [r["viol"] for r in results if r["viol"]]
    for r in results:
        viols += [f for f in r["faults"] if f["key"] not in {v["key"] for v in viols}]
    counters, sigs, samples, injected, cases = count(results), set(), [], 0, 0
    for r in results:
        cases += r["cases"]
        if r["done"]:
            injected += r["done"]["injected"]
            sigs.update(r["done"]["sigs"])
            samples += r["done"]["samples"]
    known = known_findings()
    reported, unlisted = {}, []
    for v in viols:
        hit = [k for k in known if k[0] == prop and k[1] == v["key"]]
        if hit:
            reported[hit[0][1]] = hit[0][2]
        else:
            unlisted.append(v)
    ev = dict(property=prop, tier=tier, seed=seed, level=LEVEL.get(prop, "exploration"),
              coverage=dict(evaluations=cases, distinct_nontrivial=len(sigs), rule=cfg["rule"],
                            samples=(samples[:6] or ["no case finished"]),
                            observed=counters, faults_injected=injected,
                            variants=sorted({"%s/%s%s" % (s, v, "/" + m if m else "") for s, v, m, *_ in cfg["runs"]}),
                            rounds=rnd, build_s=round(tb, 1)),
              assumptions=cfg.get("assumptions", []) + ASSUMPTIONS, wall_s=round(time.time() - t0, 1), violations=len(unlisted))
    if reported:
        ev["coverage"]["known_findings_observed"] = sorted(reported)
    os.makedirs(os.path.join(OUTD, "evidence"), exist_ok=True)
    with open(os.path.join(OUTD, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if broken and not unlisted:
        print("check could not run: " + broken[0])
        sys.exit(3)
    for k, what in reported.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if unlisted:
        os.makedirs(os.path.join(OUTD, "replays"), exist_ok=True)
        for v in unlisted:
            path = os.path.join(OUTD, "replays", "%s-%s-%d.json" % (prop, hashlib.sha256(v["key"].encode()).hexdigest()[:8], v["case"]))
            json.dump(dict(v, property=prop, thorough=thorough, tree=tree_hash()), open(path, "w"), indent=1)
            print("%s: %s (case %s, %s %s)\n%s" % (prop, v["key"], v["case"], v["harness"], v["variant"], v["msg"][:3000]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    # less than a tenth of what is expected is no evidence
    short = [k for k, n in minimum.items() if counters.get(k, 0) * 10 < n]
    if not thorough and (short or cases == 0):
        print("check observed too little: %s" % ", ".join("%s=%s < %s" % (k, counters.get(k, 0), minimum[k]) for k in short))
        sys.exit(4)
    print("%s %s: held on %d cases (%d distinct), %d faults injected, %.1f s (build %.1f s)" % (prop, tier, cases, len(sigs), injected, time.time() - t0, tb))
    print("observed: " + ", ".join("%s=%s" % i for i in sorted(counters.items())))


if __name__ == "__main__":
    try:
        main()
    except CheckError as e:
        print("check error: %s" % e)
        sys.exit(2)
