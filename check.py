#!/usr/bin/env python3
"""Deterministic-simulation checks for gmlib.

  check.py C04                    run the check of property C04 (VERIF_SEED, VERIF_TIER)
  check.py C04 --replay FILE      replay a recorded violation (exit 1 when it reproduces)
  check.py C04 --audit N          determinism audit: N seeds, twice, at two worker counts
  check.py --setup                self-test of the tool chain
Environment: GM_REPO overrides /repo (development only).
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("GM_REPO", "/repo")
BUILD = os.environ.get("GM_BUILD", os.path.join(V, "build"))
NCPU = 8
ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]
SIMD = ["-DCPU_FLAG_" + f for f in "SSE2 AVX2 AES MOVBE BMI2 RDSEED RDRAND PCLMUL".split()] + \
       ["-msse2", "-mavx2", "-maes", "-mmovbe", "-mbmi2", "-mrdseed", "-mrdrnd", "-mpclmul"]
PORT = ["-DSUPPORT_SM3_YANG15", "-DSUPPORT_SM4_LANG18"]
NOB = ["-fno-builtin-mem" + f for f in ("cpy", "move", "set", "cmp")]
WRAP = ["-Wl,--wrap=" + f for f in ("memcpy memmove memset memcmp __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort pthread_mutex_lock "
        "pthread_mutex_trylock pthread_mutex_unlock pthread_rwlock_wrlock pthread_rwlock_rdlock pthread_rwlock_unlock pthread_once").split()]
VARIANTS = {
    # name: flags for library sources and shims
    "port": ["-O2"] + PORT,
    "plain": ["-O2"],
    "simd": ["-O2"] + PORT + SIMD,
    "sse2": ["-O2"] + PORT + ["-DCPU_FLAG_SSE2", "-DCPU_FLAG_AES", "-DCPU_FLAG_PCLMUL", "-mssse3", "-maes", "-mpclmul"],
    "port_asan": ["-O1"] + PORT + ASAN,
    "plain_asan": ["-O1"] + ASAN,
    "simd_asan": ["-O1"] + PORT + SIMD + ASAN,
    "tsan_port": ["-O1", "-fsanitize=thread"] + NOB + PORT,
    "tsan_plain": ["-O1", "-fsanitize=thread"] + NOB,
    "tsan_sse2": ["-O1", "-fsanitize=thread"] + NOB + PORT + ["-DCPU_FLAG_SSE2", "-DCPU_FLAG_AES", "-DCPU_FLAG_PCLMUL", "-mssse3", "-maes", "-mpclmul"],
    "tsan_simd": ["-O1", "-fsanitize=thread"] + NOB + PORT + SIMD,
}
SO = ["-std=c++17", "-g1", "-w", "-fPIC", "-fvisibility=hidden", "-fno-gnu-unique"]
HASH = ["shim_hash"]
MODE = ["shim_mode", "shim_mode_a", "shim_mode_b", "shim_mode_c", "shim_mode_d"]
GCM = ["shim_gcm", "shim_gcm_a", "shim_gcm_b"]
SM2 = ["shim_sm2", "shim_sm2_a", "shim_sm2_b", "shim_sm2_c"]
SM9 = ["shim_sm9", "shim_sm9_a", "shim_sm9_b", "shim_sm9_c"]
STD3 = ["simd_asan", "plain_asan", "port", "simd"]
D_HASH = ["sm3", "ghash"]
D_CIPH = ["sm4", "aes", "ghash", "memory_utils"]
D_SM2 = ["sm2", "number", "sm3", "asn1", "memory_utils"]
D_SM9 = ["sm9", "number", "sm3", "memory_utils"]
REAL = {
    "hash": "real: hash_lib::Hash, SM3 (both implementations), GHASH (table and PCLMUL), HMac; simulated: user-written toy hashes plugged into the real templates",
    "mode": "real: ECB/CBC/CFB/OFB/CTR templates, SM4 and AES in every back end of the variant, memxor, counters; simulated: user-written block ciphers (bs 8..32) that can throw",
    "gcm": "real: GCM templates, GHASH, SM4, AES; simulated: user-written 16-byte ciphers that can throw, the transport that carries ciphertext and tag",
    "sm2": "real: SM2 keys, signatures, encryption, curve and big-number code, SM3; simulated: random device (scripted, failing, stuck), scripted hash digests, transport and storage of keys/signatures/ciphertexts",
    "sm9": "real: SM9 keys, signatures, pairing, big-number code, SM3; simulated: random device, scripted hash digests, transport and storage",
    "asn1": "real: ASN.1 encoder/decoder/dump; simulated: storage that tears, truncates and corrupts encodings, output stream that fails",
    "threads": "real: every gmlib source and header, compiled with -fsanitize=thread instrumentation; simulated: the thread scheduler, the race detector (own runtime), mutex/once/static-guard blocking, random devices; real OS threads run one at a time",
    "fleet": "real: all gmlib primitives and DER coding, one build per node; simulated: network, clock and timers, node scheduling, crashes and restarts, disks, random devices, the secure-channel protocol that composes the primitives",
    "winrng": "real: the CNG and CryptoAPI adapters; simulated: the Windows SDK headers, the operating system behind them (providers, random requests, failures)",
    "rng": "real: RNG adapters; simulated: RDRAND/RDSEED instructions, std::random_device, rand/srand, time",
}


def P(mods, shims, dirs, libs=None, real=None, budget=14, rule="", **kw):
    d = dict(mods=mods, shims=shims, dirs=dirs, libs=libs or STD3, real=real, budget=budget, rule=rule)
    d.update(kw)
    return d


PROPS = {}
exec(open(os.path.join(V, "props.py")).read())


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def die(msg):
    log("ERROR:", msg)
    sys.exit(2)


# ---------------------------------------------------------------- building
def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


_hdr = {}


def tree_hash(root):
    if root in _hdr:
        return _hdr[root]
    h = hashlib.sha256()
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            if f.endswith((".h", ".hpp", ".inc", ".def", ".ipp")):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b"\0")
                h.update(open(p, "rb").read())
    _hdr[root] = h.hexdigest()
    return _hdr[root]


def obj_job(src, flags, extra_inc):
    h = hashlib.sha256()
    h.update(json.dumps([flags, src, REPO, extra_inc]).encode())
    h.update(open(src, "rb").read())
    h.update(tree_hash(os.path.join(REPO, "include")).encode())
    if src.startswith(REPO):
        h.update(tree_hash(os.path.join(REPO, "src")).encode())
    else:
        for d in ("shim", "sim", "ref", "mod"):
            h.update(tree_hash(os.path.join(V, d)).encode())
    out = os.path.join(BUILD, "obj", h.hexdigest()[:32] + ".o")
    cmd = ["g++"] + flags + ["-I", os.path.join(REPO, "include")] + extra_inc + ["-c", src, "-o", out]
    return out, cmd


def compile_all(jobs):
    todo, seen = [], set()
    for out, cmd in jobs:
        if out not in seen and not os.path.exists(out):
            todo.append((out, cmd))
        seen.add(out)
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    # slow translation units first
    todo.sort(key=lambda j: 0 if "/shim" in j[1][-3] or "/mod" in j[1][-3] or "/ref" in j[1][-3] else 1)

    def one(j):
        out, cmd = j
        tmp = out + ".%d.tmp" % os.getpid()
        r = sh(cmd[:-1] + [tmp])
        if r.returncode:
            return cmd[-3], r.stdout.decode(errors="replace")
        os.rename(tmp, out)
        return None

    with cf.ThreadPoolExecutor(NCPU) as ex:
        errs = [e for e in ex.map(one, todo) if e]
    if errs:
        die("compile failed: %s\n%s" % (errs[0][0], errs[0][1][:6000]))


def sources(dirs):
    r = []
    root = os.path.join(REPO, "src")
    for d, ds, fs in sorted(os.walk(root)):
        rel = os.path.relpath(d, root).split(os.sep)[0]
        for f in sorted(fs):
            if f.endswith((".cpp", ".cc", ".cxx", ".c")) and (dirs is None or rel == "." or rel in dirs):
                r.append(os.path.join(d, f))
    return r


def link(out, cmd):
    tmp = out + ".%d.tmp" % os.getpid()
    r = sh(cmd + ["-o", tmp])
    if r.returncode:
        die("link failed: " + r.stdout.decode(errors="replace")[:3000])
    os.rename(tmp, out)


def build(pid):
    """Returns (exe, [(variant, so)])."""
    pr = PROPS[pid]
    exeflags = ["-std=c++17", "-g1", "-O1", "-w", "-DSIM_MAIN"] + (ASAN if pr.get("asan_exe", True) else []) + pr.get("exeflags", [])

    def attempt(dirs):
        jobs, libobjs = [], {}
        for v in pr["libs"]:
            fl = SO + VARIANTS[v] + pr.get("libflags", [])
            objs = []
            for s in pr["shims"]:
                fx = list(fl)
                if v.endswith("asan") and s.startswith("shim"):
                    pass
                j = obj_job(os.path.join(V, "shim", s + ".cpp"), fx, [])
                jobs.append(j)
                objs.append(j[0])
            for s in sources(dirs):
                j = obj_job(s, fl + (["-x", "c++"] if s.endswith(".c") else []), [])
                jobs.append(j)
                objs.append(j[0])
            libobjs[v] = objs
        exeobjs = []
        for s in ["sim/core.cpp", "ref/ref.cpp", "mod/util.cpp"] + ["mod/" + m + ".cpp" for m in pr["mods"]]:
            fx = list(exeflags)
            if s == "ref/ref.cpp" or s in pr.get("fast", []):
                fx = [f for f in fx if f not in ASAN and f != "-O1"] + ["-O2"]
            j = obj_job(os.path.join(V, s), fx, [])
            jobs.append(j)
            exeobjs.append(j[0])
        compile_all(jobs)
        os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
        res = []

        def name(objs, pre, suf):
            return os.path.join(BUILD, "bin", pre + hashlib.sha256("".join(objs).encode()).hexdigest()[:24] + suf)

        links = []
        for v in pr["libs"]:
            so = name(libobjs[v], v + "-", ".so")
            if not os.path.exists(so):
                links.append((so, ["g++", "-shared", "-Wl,-Bsymbolic"] + (WRAP if v.startswith("tsan") else []) + libobjs[v]))
            res.append((v, so))
        exe = name(exeobjs + [str(pr.get("exelink", ""))], pid + "-", "")
        if not os.path.exists(exe):
            links.append((exe, ["g++", "-rdynamic"] + (ASAN if pr.get("asan_exe", True) else []) + exeobjs + ["-ldl", "-lpthread"] + pr.get("exelink", [])))
        with cf.ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(lambda a: link(*a), links))
        return exe, res

    exe, libs = attempt(pr["dirs"])
    r = sh([exe, "gen", "--prop", pid] + libargs(libs), env=env())
    if r.returncode == 2 and b"undefined symbol" in r.stdout:
        log("note: linking all of src/")
        exe, libs = attempt(None)
        r = sh([exe, "gen", "--prop", pid] + libargs(libs), env=env())
    if r.returncode:
        die("smoke start failed (%d): %s" % (r.returncode, r.stdout.decode(errors="replace")[:2000]))
    return exe, libs


def libargs(libs):
    a = []
    for v, so in libs:
        a += ["--lib", v + "=" + so]
    return a


def env():
    e = {k: os.environ[k] for k in ("PATH", "HOME", "TMPDIR") if k in os.environ}  # the environment shifts the stack
    e["ASAN_OPTIONS"] = ("detect_odr_violation=0:detect_leaks=0:max_malloc_fill_size=1000000000:malloc_fill_byte=165:"
                         "free_fill_byte=90:max_free_fill_size=65536:allocator_may_return_null=0:abort_on_error=0:exitcode=97:"
                         "handle_abort=1:detect_stack_use_after_return=0:quarantine_size_mb=16:symbolize=1:print_legend=0:print_summary=1:"
                         "intercept_tls_get_addr=0")
    e["LC_ALL"] = "C"
    e["TZ"] = "UTC"
    return e


# ---------------------------------------------------------------- running
def crash_class(rc, err):
    if "terminate called" in err:
        return "crash:terminate"
    m = re.search(r"SUMMARY: AddressSanitizer: ([\w-]+)", err)
    if m:
        return "crash:asan:" + m.group(1)
    if rc == 98 or "SIM-HANG" in err:
        return "hang"
    if rc < 0:
        return "crash:signal-%d" % -rc
    if rc == 97:
        m = re.search(r"ERROR: AddressSanitizer: (\S+)", err)
        return "crash:asan:" + (m.group(1) if m else "unknown")
    return "crash:exit-%d" % rc


class Runner:
    def __init__(self, pid, exe, libs, tmp, known):
        self.pid, self.exe, self.libs, self.tmp, self.known = pid, exe, libs, tmp, known
        self.n = 0
        self.cpu = PROPS[pid].get("cpu", 25)

    def base(self, mode):
        a = [self.exe, mode, "--prop", self.pid] + libargs(self.libs) + ["--cpu", str(self.cpu)]
        for k in self.known:
            a += ["--known", k]
        return a

    def gen(self, seed, idx):
        r = subprocess.run(self.base("gen") + ["--seed", str(seed), "--start", str(idx)], stdout=subprocess.PIPE, env=env())
        return r.stdout.decode()

    def run(self, plan, trace=False, timeout=240):
        """Fresh process; returns (class or None, hash, msg, output)."""
        self.n += 1
        fd, f = tempfile.mkstemp(dir=self.tmp)
        os.write(fd, plan.encode())
        os.close(fd)
        try:
            r = subprocess.run(self.base("run") + ["--plan", f] + (["--trace"] if trace else []), stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, env=env(), timeout=timeout)
        except subprocess.TimeoutExpired:
            return "hang", "", "wall clock", ""
        finally:
            os.unlink(f)
        out, err = r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")
        hm = re.search(r"^HASH (\w+)", out, re.M)
        if r.returncode == 0:
            return None, hm.group(1) if hm else "", "", out
        if r.returncode == 3:
            m = re.search(r"^VIOL \d+ (.*?) \| (.*)$", out, re.M)
            return m.group(1), hm.group(1), m.group(2), out
        if r.returncode == 2:
            die("replay process could not start: " + err[:500])
        return crash_class(r.returncode, err), "", "\n".join(err.strip().splitlines()[:30]), out


def cls_key(c):
    return c.replace("second-run:", "") if c else c


def confirm(R, plan):
    a, b = R.run(plan), R.run(plan)
    if a[0] and a[0] == b[0] and a[1] == b[1]:
        return a
    return None


def confirm_weakly(R, plan, cls, n):
    """The code's answers may depend on memory it never wrote; then a replay shows the violation, though not bit for bit."""
    with cf.ThreadPoolExecutor(NCPU) as ex:
        rs = list(ex.map(lambda _: R.run(plan), range(n)))
    rs = [r for r in rs if r[0]]
    rs.sort(key=lambda r: cls_key(r[0]) != cls_key(cls))
    if not rs:
        return None
    r = rs[0]
    return (r[0], r[1], r[2] + "\n(%d of %d replays of this file violate the property; their outputs differ, so the code's answer depends on memory it never wrote)" % (len(rs), n), r[3])


def minimise(R, plan, cls, limit):
    t_end = time.time() + limit
    key = cls_key(cls)
    plans = [[l for l in p.splitlines() if l] for p in plan.split("---\n")]

    def txt(ps):
        return "---\n".join("\n".join(p) + "\n" for p in ps)

    def bad(ps):
        return cls_key(R.run(txt(ps))[0]) == key

    def first_bad(cands):
        """cands in order; evaluated in parallel groups; returns first failing candidate."""
        i = 0
        with cf.ThreadPoolExecutor(NCPU) as ex:
            while i < len(cands) and time.time() < t_end:
                g = cands[i:i + NCPU]
                for c, ok in zip(g, ex.map(bad, g)):
                    if ok:
                        return c
                i += NCPU
        return None

    # whole plans
    changed = True
    while changed and len(plans) > 1 and time.time() < t_end:
        changed = False
        c = first_bad([plans[:i] + plans[i + 1:] for i in range(len(plans))])
        if c:
            plans, changed = c, True
    # ddmin over operations
    for pi in range(len(plans)):
        size = max(1, len(plans[pi]) // 2)
        while size and time.time() < t_end:
            ops = plans[pi]
            cands = []
            for i in range(0, len(ops), size):
                q = ops[:i] + ops[i + size:]
                if q:
                    cands.append(plans[:pi] + [q] + plans[pi + 1:])
            c = first_bad(cands)
            if c:
                plans = c
                size = min(size, max(1, len(plans[pi]) // 2))
            else:
                size //= 2
        # arguments
        progress, rounds = True, 0
        while progress and time.time() < t_end and rounds < 4:
            progress, rounds = False, rounds + 1
            for oi in range(len(plans[pi])):
                f = plans[pi][oi].split()
                for ai in range(1, len(f)):
                    f = plans[pi][oi].split()
                    v = int(f[ai])
                    if v == 0 or time.time() > t_end:
                        continue
                    vals = []
                    for x in (0, 1, v // 16, v // 2, v - (v & 7 or 8), v - 1):
                        if 0 <= x < v and x not in vals:
                            vals.append(x)
                    cands = []
                    for x in vals:
                        g = f[:ai] + [str(x)] + f[ai + 1:]
                        cands.append(plans[:pi] + [plans[pi][:oi] + [" ".join(g)] + plans[pi][oi + 1:]] + plans[pi + 1:])
                    c = first_bad(cands)
                    if c:
                        plans, progress = c, True
    return txt(plans)


def load_known(pid):
    """known_findings.txt: 'KNOWN-FINDING: property=<id> key=<key> <what fails>' and
    'fixed: property=<id> <commit> <what failed>' (suppresses nothing)."""
    res = {}
    for l in open(os.path.join(V, "known_findings.txt")):
        m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", l)
        if m and m.group(1) == pid:
            res[m.group(2)] = m.group(3).strip()
    return res


def main():
    args = sys.argv[1:]
    if args and args[0] == "--setup":
        r = sh(["g++", "--version"])
        if r.returncode:
            die("no compiler")
        print("setup ok: checks build everything they need from", REPO)
        return 0
    pid = args[0] if args else ""
    if pid not in PROPS:
        die("usage: check.py PROPERTY [--replay FILE | --audit N]; known: " + " ".join(PROPS))
    pr = PROPS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    thorough = tier == "thorough"
    budget = float(os.environ.get("GM_BUDGET", 0) or (pr.get("thorough", 600) if thorough else pr["budget"]))
    t0 = time.time()
    known = load_known(pid)
    exe, libs = build(pid)
    t_build = time.time() - t0
    tmp = tempfile.mkdtemp(prefix="gmsim-")
    try:
        R = Runner(pid, exe, libs, tmp, list(known))
        if thorough:
            R.cpu = max(R.cpu, 240)
        if "--replay" in args:
            plan = "".join(l for l in open(args[args.index("--replay") + 1]) if not l.startswith("#"))
            a = R.run(plan, trace=True)
            print(a[3])
            if a[0]:
                print("REPRODUCED", a[0], a[1], "|", a[2])
                return 1
            print("not reproduced; hash", a[1])
            return 0
        if "--audit" in args:
            return audit(R, seed, int(args[args.index("--audit") + 1]))
        return search(pid, pr, R, seed, tier, budget, t0, t_build, known)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def audit(R, seed, n):
    def hashes(start, stride, runs):
        r = subprocess.run(R.base("hashes") + ["--seed", str(seed), "--start", str(start), "--stride", str(stride), "--runs", str(runs)],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env())
        d = {}
        for l in r.stdout.decode().splitlines():
            f = l.split()
            if len(f) == 3 and f[0].isdigit():
                d[int(f[0])] = (f[1], f[2])
        return d

    def sweep(w):
        d = {}
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for x in ex.map(lambda k: hashes(k, w, (n - k + w - 1) // w), range(w)):
                d.update(x)
        return d

    a, b, c = sweep(8), sweep(8), sweep(3)
    bad = [k for k in a if not (a[k] == b.get(k) == c.get(k))]
    print("audit %s: %d runs, three sweeps (8, 8 and 3 processes), %d diverging %s, %d violating" %
          (R.pid, len(a), len(bad), bad[:5], sum(v[1] == "1" for v in a.values())))
    return 0 if not bad and len(a) == n else 2


def search(pid, pr, R, seed, tier, budget, t0, t_build, known):
    W = pr.get("workers", NCPU)
    procs = []
    for w in range(W):
        f = {k: os.path.join(R.tmp, "%s%d" % (k, w)) for k in ("out", "states", "cur", "err")}
        cmd = R.base("batch") + ["--seed", str(seed), "--start", str(w), "--stride", str(W), "--budget", str(budget), "--floor", str(pr.get("floor", 0) if tier != "thorough" else 0), "--out", f["out"],
                                 "--states", f["states"], "--cur", f["cur"]]
        procs.append((subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(f["err"], "wb"), env=env()), f, w))
    hard = time.time() + 5 * budget + 2 * R.cpu + 300 if tier != "thorough" else time.time() + budget + 2 * R.cpu + 500
    fail = None
    live = list(procs)
    while live:
        time.sleep(0.05)
        for x in list(live):
            rc = x[0].poll()
            if rc is None:
                if time.time() > hard:
                    x[0].kill()
                continue
            live.remove(x)
            if rc != 0 and fail is None:
                fail = (rc, x)
                for y in live:
                    y[0].kill()
    stats, runs, nontriv, steps, simtime, det = {}, 0, 0, 0, 0.0, 0
    samples, states, rate, wall_search, nexts = [], set(), 0.0, 0.0, []
    for p, f, w in procs:
        try:
            j = json.load(open(f["out"]))
        except Exception:
            continue
        runs += j["runs"]
        nontriv += j["nontrivial"]
        steps += j["steps"]
        det += j["det"]
        simtime += j["simtime"]
        wall_search = max(wall_search, j["wall"])
        for k, v in j["stats"].items():
            stats[k] = stats.get(k, 0) + v
        if j["sample"] and len(samples) < 3:
            samples.append({"worker": w, "plan": j["sample"]})
        if os.path.exists(f["states"]):
            b = open(f["states"], "rb").read()
            states.update(memoryview(b).cast("Q"))
    violation = None
    if fail:
        rc, (p, f, w) = fail
        err = open(f["err"], "rb").read().decode(errors="replace")
        if rc == 2:
            die("worker could not start: " + err[:1000])
        if rc == 3:
            j = json.load(open(f["out"]))
            idx, plan, cls, msg = j["badidx"], j["plan"], j["cls"], j["msg"]
        else:
            cur = open(f["cur"], "rb").read()
            idx = int.from_bytes(cur[:8], "little")
            plan = R.gen(seed, idx)
            cls, msg = crash_class(rc, err), "\n".join(err.strip().splitlines()[:25])
        log("violation candidate: run %d class %s: %s" % (idx, cls, msg[:1500]))
        conf = confirm(R, plan)
        cands = [plan]
        if not conf:
            for k in (1, 2, 4, 8, 16, 32, 64, 128, 256):
                first = max(w, idx - k * W)
                seq = [R.gen(seed, i) for i in range(first, idx + 1, W)]
                cand = "---\n".join(seq)
                cands.append(cand)
                conf = confirm(R, cand)
                if conf:
                    plan = cand
                    break
                if first == w:
                    break
        weak = not conf
        for cand in cands if weak else []:
            conf = confirm_weakly(R, cand, cls, 8)
            if conf:
                plan = cand
                break
        if not conf:
            die("the violation did not reproduce in fresh processes (run %d, class %s)" % (idx, cls))
        small = minimise(R, plan, conf[0], float(os.environ.get("GM_MINIMISE") or pr.get("minimise", 40)))
        c2 = confirm_weakly(R, small, conf[0], 8) if weak else confirm(R, small)
        if not c2 or cls_key(c2[0]) != cls_key(conf[0]):
            small, c2 = plan, conf
        rdir = os.path.join(V, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s-%s.plan" % (pid, hashlib.sha256(small.encode()).hexdigest()[:12]))
        with open(rp, "w") as g:
            g.write("# property %s seed %d run %d\n# class %s\n# hash %s\n" % (pid, seed, idx, c2[0], c2[1]))
            for l in c2[2].splitlines():
                g.write("# " + l + "\n")
            g.write("# replay: python3 check.py %s --replay %s\n" % (pid, rp))
            g.write(small)
        violation = (rp, c2[0], c2[2], small)
    faults = {k: v for k, v in sorted(stats.items()) if k.startswith("fault.")}
    probes = {k: v for k, v in sorted(stats.items()) if not k.startswith("fault.")}
    for k in known:
        if stats.get("known." + k, 0):
            print("KNOWN-FINDING: property=%s %s" % (pid, known[k]))
    wall = time.time() - t0
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs, "distinct_nontrivial": nontriv,
            "rule": "one evaluation is one simulated run (a plan drawn from the seed and executed against the real code); " + pr["rule"] +
                    "; distinct runs are counted by the hash of the plan text",
            "samples": samples or [{"plan": violation[3] if violation else R.gen(seed, 1000)}],
            "runs_per_hour": int(runs / max(wall_search, 0.001) * 3600),
            "seeds_per_hour": int(runs / max(wall_search, 0.001) * 3600),
            "simulated_steps": steps, "simulated_seconds": round(simtime, 3),
            "fault_injections": faults, "probes": probes,
            "distinct_states": len(states), "state_measure": pr.get("state", "hash of object kind, life-cycle state, buffered residue and next operation's size class"),
            "runs_repeated_for_determinism": det,
            "components": REAL.get(pr["real"], pr["real"] or ""), "build_variants": pr["libs"], "build_s": round(t_build, 1),
        },
        "assumptions": pr.get("assume", []) + ["sampling: a clean batch is evidence, not proof", "g++ 13 x86-64 builds of the listed variants"],
        "wall_s": round(wall, 2), "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as g:
        json.dump(ev, g, indent=1)
    log("%s: %d runs (%d non-trivial), %d states, build %.1fs, total %.1fs" % (pid, runs, nontriv, len(states), t_build, wall))
    if violation:
        log("class %s: %s" % (violation[1], violation[2][:800]))
        print("VIOLATION property=%s replay=%s" % (pid, violation[0]))
        return 1
    need = [k for k in pr.get("must", []) if not stats.get(k)]
    if need:
        log("warning: probes stuck at zero: " + ", ".join(need))
    if runs == 0:
        die("no run completed")
    return 0


if __name__ == "__main__":
    sys.exit(main())
