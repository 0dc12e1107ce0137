#!/usr/bin/env python3
"""Builds the drivers of one property from /repo's working tree, runs them, judges, writes evidence.

usage: check.py ID [--tier quick|thorough] [--seed N] [--replay FILE]
       check.py --setup
exit: 0 held on everything explored, 1 violated (prints VIOLATION), 2 error of the check itself
"""
import array, concurrent.futures as cf, fcntl, glob, hashlib, json, mmap, os, re, shutil, signal, struct, subprocess
import sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "bin"))
import props  # noqa: E402

BUILD = os.path.join(VERIF, ".build")
WORK = os.path.join(VERIF, ".work")
JOBS = int(os.environ.get("VF_JOBS", "8"))
HANG_S = int(os.environ.get("VF_HANG_S", "60"))


HAVE_SETARCH = subprocess.run(["setarch", "-R", "true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0 if shutil.which("setarch") else False


class HarnessError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def tree_hash():
    h = hashlib.sha256()
    for base in ("include", "src"):
        for root, dirs, files in os.walk(os.path.join(REPO, base)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, REPO).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    with open(os.path.join(REPO, "CMakeLists.txt"), "rb") as fh:
        h.update(fh.read())
    for p in sorted(glob.glob(os.path.join(VERIF, "harness", "*.h"))):
        with open(p, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


# ---- build ------------------------------------------------------------------------------------
COMMON = ["-g", "-fno-omit-frame-pointer", "-pthread"]
TSX = "-DLIBCOPP_FCONTEXT_USE_TSX=1"  # the default build; it leaves the floating point control words alone
UB = "-fsanitize=undefined"
FLAVORS = {
    "asan": {"cxx": "clang++", "flags": ["-O1", "-fsanitize=address", UB, "-fno-sanitize-recover=all",
                                          "-fno-sanitize=function,vptr"],
             "link": ["-fsanitize=address,undefined"], "wrap": ["-DVF_WRAP_ASAN=1"]},
    "tsan": {"cxx": "clang++", "flags": ["-O1", "-fsanitize=thread"],
             "link": ["-fsanitize=thread"], "wrap": ["-DVF_WRAP_TSAN=1"]},
    # thread sanitizer plus injected delays at every function entry/exit
    "tsand": {"cxx": "clang++", "flags": ["-O1", "-fsanitize=thread", "-fno-inline", "-finstrument-functions-after-inlining", "-DVF_DELAYS=1"],
              "link": ["-fsanitize=thread"], "wrap": ["-DVF_WRAP_TSAN=1"]},
    # address sanitizer plus injected delays
    "asand": {"cxx": "clang++", "flags": ["-O1", "-fsanitize=address", "-fno-inline", "-finstrument-functions-after-inlining", "-DVF_DELAYS=1"],
              "link": ["-fsanitize=address"], "wrap": ["-DVF_WRAP_ASAN=1"]},
    # as the project builds it
    "plain": {"cxx": "g++", "flags": ["-O2", "-DNDEBUG", "-DVF_NOWRAP=1"], "link": [], "wrap": None},
    # the same with LIBCOPP_FCONTEXT_USE_TSX off: the switch saves the floating point control words too
    "ctrl": {"cxx": "g++", "flags": ["-O2", "-DNDEBUG", "-DVF_NOWRAP=1", "-DVF_CTRL=1"], "link": [], "wrap": None, "tsx": False},
    # other configurations the project offers. st: C++17, one thread only (no atomics, no locks, no thread local storage), no C++20
    # coroutines, the project's own span
    "st": {"cxx": "clang++", "std": "c++17", "flags": ["-O1", "-fsanitize=address", UB, "-fno-sanitize-recover=all",
                                                       "-fno-sanitize=function,vptr"],
           "link": ["-fsanitize=address,undefined"], "wrap": ["-DVF_WRAP_ASAN=1"],
           "features": {"LIBCOPP_DISABLE_ATOMIC_LOCK": "1", "LIBCOPP_LOCK_DISABLE_MT": "1",
                        "LIBCOPP_LOCK_DISABLE_THIS_MT": "1", "LIBCOPP_MACRO_ENABLE_STD_COROUTINE": "",
                        "LIBCOPP_MACRO_ENABLE_STD_SPAN": ""}},
    # bare: exceptions are not forwarded, pthread keys instead of thread_local and the other way round for the ids, neither std::variant
    # nor concepts
    "bare": {"cxx": "clang++", "flags": ["-O1", "-fsanitize=address", UB, "-fno-sanitize-recover=all",
                                         "-fno-sanitize=function,vptr", "-DCOPP_MACRO_DISABLE_THREAD_LOCAL_KEYWORK=1"],
             "link": ["-fsanitize=address,undefined"], "wrap": ["-DVF_WRAP_ASAN=1"],
             "features": {"LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR": "", "THREAD_TLS_USE_PTHREAD": "",
                          "LIBCOPP_MACRO_ENABLE_STD_VARIANT": "", "LIBCOPP_MACRO_ENABLE_CONCEPTS": ""}},
    "tsanb": {"cxx": "clang++", "flags": ["-O1", "-fsanitize=thread", "-fno-inline", "-finstrument-functions-after-inlining",
                                          "-DVF_DELAYS=1", "-DCOPP_MACRO_DISABLE_THREAD_LOCAL_KEYWORK=1"],
              "link": ["-fsanitize=thread"], "wrap": ["-DVF_WRAP_TSAN=1"],
              "features": {"LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR": "", "THREAD_TLS_USE_PTHREAD": ""}},
    # optimised with asserts and injected delays, no sanitizer: cheap interleavings
    "delay": {"cxx": "g++", "flags": ["-O1", "-finstrument-functions", "-DVF_DELAYS=1"], "link": [], "wrap": []},
}


def generate_features(dst, override):
    top = open(os.path.join(REPO, "CMakeLists.txt")).read()
    m = re.search(r'VERSION "([0-9]+)\.([0-9]+)\.([0-9]+)"', top)
    if not m:
        raise HarnessError("no project version in CMakeLists.txt")
    lvl = 1000 * int(m.group(1)) + int(m.group(2))
    d = {"LIBCOPP_VERSION_MAJOR": m.group(1), "LIBCOPP_VERSION_MINOR": m.group(2), "LIBCOPP_VERSION_PATCH": m.group(3),
         "LIBCOPP_VERSION": ".".join(m.groups()), "LIBCOPP_API_LEVEL": str(lvl), "LIBCOPP_ABI_TAG": "v%d" % lvl}
    for k in ("LIBCOPP_MACRO_SYS_POSIX LIBCOPP_FCONTEXT_USE_TSX LIBCOTASK_MACRO_ENABLED "
              "LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER THREAD_TLS_USE_PTHREAD LIBCOPP_MACRO_ENABLE_STD_COROUTINE "
              "LIBCOPP_MACRO_ENABLE_EXCEPTION LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR LIBCOPP_MACRO_ENABLE_RTTI "
              "LIBCOPP_MACRO_ENABLE_STD_SPAN").split():
        d[k] = "1"
    if os.path.exists("/usr/include/valgrind/valgrind.h"):
        d["LIBCOPP_MACRO_USE_VALGRIND"] = "1"
    d.update(override)
    out = []
    src = os.path.join(REPO, "include/libcopp/utils/config/libcopp_build_features.h.in")
    for line in open(src):
        m = re.match(r"^(\s*#\s*)cmakedefine01\s+(\w+)", line)
        if m:
            line = "%sdefine %s %d\n" % (m.group(1), m.group(2), 1 if d.get(m.group(2)) else 0)
        else:
            m = re.match(r"^(\s*#\s*)cmakedefine\s+(\w+)(.*)$", line)
            if m:
                line = ("%sdefine %s%s\n" % (m.group(1), m.group(2), m.group(3))) if d.get(m.group(2)) else \
                    "/* #undef %s */\n" % m.group(2)
        m = re.match(r"^\s*#\s*define\s+(\w+)\s+1\s*$", line)
        if m and override.get(m.group(1)) == "":
            line = "/* #undef %s */\n" % m.group(1)
        line = re.sub(r"@(\w+)@", lambda k: d.get(k.group(1), ""), line)
        out.append(line)
    p = os.path.join(dst, "include/libcopp/utils/config")
    os.makedirs(p, exist_ok=True)
    f = os.path.join(p, "libcopp_build_features.h")
    tmp = f + ".%d" % os.getpid()
    open(tmp, "w").write("".join(out))
    os.replace(tmp, f)


def lib_sources():
    L = []
    for pat, d in (("src/libcopp/coroutine/**/*.cpp", "COPP"), ("src/libcopp/utils/**/*.cpp", "COPP"),
                   ("src/libcopp/stack/*.cpp", "COPP"), ("src/libcotask/**/*.cpp", "COTASK")):
        for p in sorted(glob.glob(os.path.join(REPO, pat), recursive=True)):
            L.append((p, ["-DLIBCOPP_API_%s_NATIVE=1" % d]))
    for f in ("allocator/stack_allocator_memory", "allocator/stack_allocator_malloc", "allocator/stack_allocator_posix",
              "stack_traits/stack_traits_posix"):
        L.append((os.path.join(REPO, "src/libcopp/stack", f + ".cpp"), ["-DLIBCOPP_API_COPP_NATIVE=1"]))
    for f in ("jump", "make", "ontop"):
        L.append((os.path.join(REPO, "src/libcopp/fcontext/asm", f + "_x86_64_sysv_elf_gas.S"),
                  ["-x", "assembler-with-cpp", "-DLIBCOPP_API_COPP_NATIVE=1"]))
    return L


class Builder:
    def __init__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.th = tree_hash()
        self.gens = {}
        self.pool = cf.ThreadPoolExecutor(JOBS)
        self.futs = {}
        self.lk = threading.Lock()
        self.compiled = 0
        self.compile_s = 0.0

    def inc(self, flavor):
        o = FLAVORS[flavor].get("features", {})
        k = hashlib.sha256(repr(sorted(o.items())).encode()).hexdigest()[:8]
        with self.lk:
            if k not in self.gens:
                self.gens[k] = os.path.join(BUILD, "gen-" + self.th[:16] + "-" + k)
                generate_features(self.gens[k], o)
        return ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(self.gens[k], "include"),
                "-I" + os.path.join(VERIF, "harness")]

    def _compile(self, cmd, out):
        if os.path.exists(out):
            try:
                os.utime(out)
            except OSError:
                pass
            return out
        t = time.time()
        tmp = "%s.%d.tmp" % (out, os.getpid())
        r = sh(cmd + ["-o", tmp])
        if r.returncode != 0:
            raise HarnessError("compile failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
        os.replace(tmp, out)
        with self.lk:
            self.compiled += 1
            self.compile_s += time.time() - t
        return out

    def obj(self, flavor, src, extra=(), raw=None):
        fl = FLAVORS[flavor]
        if raw is not None:
            cmd = [fl["cxx"], "-O2", "-g", "-std=c++20", "-pthread"] + raw + ["-c", src]
        elif src.endswith(".S"):
            cmd = [fl["cxx"]] + list(extra) + ([TSX] if fl.get("tsx", True) else []) + self.inc(flavor) + ["-c", src]
        else:
            cmd = [fl["cxx"], "-std=" + fl.get("std", "c++20")] + COMMON + ([TSX] if fl.get("tsx", True) else []) + fl["flags"] + \
                list(extra) + self.inc(flavor) + ["-c", src]
        with open(src, "rb") as f:
            key = hashlib.sha256((self.th + repr(cmd)).encode() + f.read()).hexdigest()[:24]
        out = os.path.join(BUILD, os.path.basename(src) + "." + flavor + "." + key + ".o")
        with self.lk:
            if out not in self.futs:
                self.futs[out] = self.pool.submit(self._compile, cmd, out)
            return self.futs[out]

    def program(self, flavor, driver):
        """returns a function that waits for the objects, links and gives the path"""
        fl = FLAVORS[flavor]
        H = os.path.join(VERIF, "harness")
        drv = os.path.join(H, driver + ".cpp")
        fs = [self.obj(flavor, drv), self.obj(flavor, os.path.join(H, "verif.cpp"))]
        fs += [self.obj(flavor, s, e) for s, e in lib_sources()]
        link = []
        fs.append(self.obj(flavor, os.path.join(H, "delays.cpp"), raw=["-fno-omit-frame-pointer"]))
        if fl["wrap"] is not None:
            fs.append(self.obj(flavor, os.path.join(H, "fiberwrap.cpp"), raw=fl["wrap"]))
            link = ["-Wl,--wrap=copp_jump_fcontext_v2", "-Wl,--wrap=copp_make_fcontext_v2"]

        def finish():
            objs = [f.result() for f in fs]
            key = hashlib.sha256(repr((objs, link, fl["link"])).encode()).hexdigest()[:24]
            out = os.path.join(BUILD, "%s.%s.%s" % (driver, flavor, key))
            return self._compile([fl["cxx"], "-g", "-pthread"] + fl["link"] + objs + link, out)
        return finish


def prune_build():
    now = time.time()
    try:
        for e in os.scandir(BUILD):
            if now - e.stat().st_mtime > 5 * 3600:
                shutil.rmtree(e.path) if e.is_dir() else os.unlink(e.path)
    except OSError:
        pass


# ---- run --------------------------------------------------------------------------------------
class Shard:
    """one driver process over a contiguous range of cases; continues after known findings"""

    def __init__(self, prog, run, shard, cases, seed, tier, work):
        self.prog, self.run, self.shard, self.cases, self.seed, self.tier = prog, run, shard, cases, seed, tier
        self.name = "%s.%s.%s.%d" % (run["driver"], run["build"], run["mode"], shard)
        self.dir = os.path.join(work, self.name)
        os.makedirs(self.dir, exist_ok=True)
        self.results, self.fails, self.inconclusive = [], [], []

    def exec(self, start, only=None, tag="r", stop=None, hang_s=HANG_S):
        st = os.path.join(self.dir, "status." + tag)
        hs = os.path.join(self.dir, "hashes." + tag)
        for p in (st, hs):
            if os.path.exists(p):
                os.unlink(p)
        cmd = [self.prog, "--mode", self.run["mode"], "--seed", str(self.seed), "--shard", str(self.shard), "--cases",
               str(self.cases), "--from", str(start), "--status", st, "--hashes", hs, "--tier", self.tier]
        if only is not None:
            cmd += ["--case", str(only)]
        env = dict(os.environ)
        for k in ("ASAN_OPTIONS", "TSAN_OPTIONS", "UBSAN_OPTIONS", "LSAN_OPTIONS"):
            env.pop(k, None)
        env["ASAN_SYMBOLIZER_PATH"] = env["TSAN_SYMBOLIZER_PATH"] = props.SYMBOLIZER
        outp = os.path.join(self.dir, "out." + tag)
        with open(outp, "wb") as of:
            if self.run["build"].startswith("tsan"):
                if HAVE_SETARCH:
                    cmd = ["setarch", "-R"] + cmd
            p = subprocess.Popen(cmd, stdout=of, stderr=subprocess.STDOUT, env=env, stdin=subprocess.DEVNULL,
                                 start_new_session=True)
            last, t_last = None, time.time()
            why = None
            while True:
                try:
                    p.wait(0.05)
                    break
                except subprocess.TimeoutExpired:
                    pass
                cur = self.peek(st)
                now = time.time()
                if cur != last:
                    last, t_last = cur, now
                if now - t_last > hang_s:
                    why = "hang"
                elif stop is not None and stop.is_set():
                    why = "stopped"
                if why:
                    if why == "hang" and os.environ.get("VF_GDB"):
                        print(sh(["gdb", "-p", str(p.pid), "-batch", "-ex", "thread apply all bt 30"]).stdout[-12000:])
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except OSError:
                        pass
                    p.wait()
                    break
        text = open(outp, "rb").read().decode("utf-8", "replace")
        cur = self.peek(st)
        return {"rc": p.returncode, "why": why, "text": text, "case": cur[0], "done": cur[1], "hashes": hs, "cmd": cmd}

    @staticmethod
    def peek(st):
        try:
            with open(st, "rb") as f:
                b = f.read(32)
            m, c, d, h = struct.unpack("<QQQQ", b)
            return (c, d, h)
        except Exception:
            return (0, 0, 0)

    def go(self, known, stop):
        start, attempt, killed = 0, 0, 0
        while start < self.cases and not stop.is_set():
            attempt += 1
            r = self.exec(start, tag="r%d" % attempt, stop=stop)
            if r["why"] == "stopped":
                self.partial(r)
                return
            m = re.search(r"^VF-RESULT (\{.*\})$", r["text"], re.M)
            if r["rc"] == 0 and m:
                res = json.loads(m.group(1))
                res["hashes"] = r["hashes"]
                self.results.append(res)
                return
            self.partial(r)
            if r["why"] == "hang":
                # run the case again; a hang is reported only if it shows twice
                again = self.exec(0, only=r["case"], tag="h%d" % attempt, stop=stop)
                if again["why"] == "stopped":
                    return
                f = None
                if again["why"] == "hang":
                    f = {"key": "hang", "case": r["case"], "msg": "case made no progress for %d s, twice" % HANG_S, "text": ""}
                elif again["rc"] != 0:
                    f = classify(again, again["case"])
                if f is None:
                    self.inconclusive.append("%s case %d stalled once" % (self.name, r["case"]))
                    start = r["case"] + 1
                    continue
            elif r["rc"] in (-9, 137):
                killed += 1
                self.inconclusive.append("%s case %d: process was killed" % (self.name, r["case"]))
                if killed >= 3:
                    raise HarnessError("%s killed from outside repeatedly" % self.name)
                start = r["case"]
                continue
            elif r["rc"] == 2 and "VF-FAIL" not in r["text"]:
                raise HarnessError("%s: driver error\n%s" % (self.name, r["text"][-3000:]))
            else:
                f = classify(r, r["case"])
            f["shard"], f["cmd"] = self.name, r["cmd"]
            f["run"], f["shard_no"], f["cases"] = self.run, self.shard, self.cases
            self.fails.append(f)
            if not match_known(known, f):
                stop.set()
                return
            start = r["case"] + 1

    def partial(self, r):
        self.results.append({"evals": r["done"], "nontrivial": 0, "distinct": 0, "counters": {}, "samples": [],
                             "hashes": None})


def classify(r, case):
    t = r["text"]
    m = re.search(r"VF-FAIL key=(\S+) case=\d+ (.*)", t)
    if m and "LeakSanitizer" not in m.group(2):
        return {"key": m.group(1), "case": case, "msg": m.group(2), "text": t[-6000:]}
    m = re.search(r"(?:ERROR|WARNING): (AddressSanitizer|ThreadSanitizer|LeakSanitizer):? ([\w -]+?)(?: on | \(|:|$|\n)", t)
    if m:
        kind = m.group(2).strip().replace(" ", "-")
        frames = re.findall(r"#\d+ (?:0x[0-9a-f]+ in )?(.+?) (?:/\S+?/)?([\w.]+):\d+", t)
        fr = [f for f in frames if not re.search(r"verif\.|fiberwrap|/bits/|sanitizer|asan_|tsan_|new_delete", f[0] + f[1])]
        where = re.sub(r"[^\w:~]+", "_", fr[0][0].split("(")[0])[-70:] if fr else "?"
        i = t.find(m.group(0))
        return {"key": "%s:%s@%s" % (m.group(1), kind, where), "case": case, "msg": t[i:i + 160].replace("\n", " "),
                "text": t[max(0, i - 200):i + 7000]}
    m = re.search(r"(\S+:\d+:\d+): runtime error: (.*)", t)
    if m:
        return {"key": "UBSan:" + re.sub(r"[^\w]+", "-", m.group(2))[:60], "case": case, "msg": m.group(0)[:300],
                "text": t[-6000:]}
    m = re.search(r"(\S+): Assertion `(.*)' failed", t)
    if m:
        return {"key": "assert:" + re.sub(r"[^\w]+", "-", m.group(2))[:60], "case": case, "msg": m.group(0)[:300],
                "text": t[-6000:]}
    return {"key": "crash:rc%s" % r["rc"], "case": case, "msg": "process ended with status %s" % r["rc"], "text": t[-6000:]}


def match_known(known, f):
    for k in known:
        if re.search(k["key"], f["key"]) and re.search(k.get("msg", ""), f["msg"]):
            return k
    return None


def load_known(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#"):
                d = json.loads(line)
                if d.get("status") == "known" and d["property"] == pid:
                    out.append(d)
    return out


def main():
    a = sys.argv[1:]
    if a == ["--setup"]:
        for t in ("clang++", "g++", "setarch"):
            if not shutil.which(t):
                print("missing tool", t)
                return 2
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        print("ok")
        return 0
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only_run = None
    scale = float(os.environ.get("VF_SCALE", "1"))
    replay = None
    i = 1
    while i < len(a):
        if a[i] == "--tier":
            tier = a[i + 1]
        elif a[i] == "--seed":
            seed = int(a[i + 1])
        elif a[i] == "--replay":
            replay = json.load(open(a[i + 1]))
        elif a[i] == "--only":
            only_run = a[i + 1]
        else:
            print("unknown argument", a[i])
            return 2
        i += 2
    P = props.PROPS[pid]
    t0 = time.time()
    work = os.path.join(WORK, "%s-%s-%d" % (pid, tier, os.getpid()))
    if os.path.isdir(work):
        shutil.rmtree(work)
    os.makedirs(work)
    prune_build()
    B = Builder()
    known = load_known(pid)

    if replay:
        r = replay
        prog = B.program(r["run"]["build"], r["run"]["driver"])()
        s = Shard(prog, r["run"], r["shard_no"], r["cases"], r["seed"], r["tier"], work)
        for n in range(int(r.get("repeat", 20))):
            x = s.exec(0, only=r["case"], tag="p")
            if x["rc"] != 0:
                print(x["text"][-6000:])
                print("replayed: run %d of the case failed again" % (n + 1))
                return 1
        print("the case did not fail again")
        return 0

    runs = [dict(r) for r in P["runs"]]
    if only_run:
        runs = [r for r in runs if only_run in "%s.%s.%s" % (r["driver"], r["build"], r["mode"])]
    progs = {}
    for r in runs:
        k = (r["build"], r["driver"])
        if k not in progs:
            progs[k] = B.program(*k)
    stop = threading.Event()
    errors = []
    # link each program as soon as its objects exist, run shards in a separate pool
    linkpool = cf.ThreadPoolExecutor(max(1, len(progs)))
    linked = {k: linkpool.submit(f) for k, f in progs.items()}
    shards_lock = threading.Lock()
    shards = []
    runpool = cf.ThreadPoolExecutor(JOBS)

    slots = threading.Semaphore(JOBS)

    def do(run, shard, cases):
        w = min(JOBS, run.get("weight", 1))
        try:
            prog = linked[(run["build"], run["driver"])].result()
            if stop.is_set():
                return
            s = Shard(prog, run, shard, cases, seed, tier, work)
            with shards_lock:
                shards.append(s)
            s.go(known, stop)
        except HarnessError as e:
            errors.append(str(e))
            stop.set()

    jobs = []
    for r in runs:
        n = r["shards_thorough"] if tier == "thorough" and "shards_thorough" in r else r.get("shards", 1)
        total = r["cases"] if tier == "quick" else r.get("cases_thorough", r["cases"] * 10)
        total = max(1, int(total * scale))
        for k in range(n):
            jobs.append((r, k, max(1, total // n)))
    # threads of multi-threaded drivers oversubscribe the cores on purpose
    futs = [runpool.submit(do, *j) for j in jobs]
    for f in futs:
        f.result()
    if errors:
        print("HARNESS ERROR:", errors[0])
        return 2

    evals = sum(x["evals"] for s in shards for x in s.results)
    nontriv = sum(x["nontrivial"] for s in shards for x in s.results)
    H = set()
    counters, samples, per_run = {}, [], {}
    for s in shards:
        k = "%s/%s/%s" % (s.run["driver"], s.run["mode"], s.run["build"])
        for x in s.results:
            pr = per_run.setdefault(k, {"evaluations": 0})
            pr["evaluations"] += x["evals"]
            for c, v in x["counters"].items():
                counters[c] = counters.get(c, 0) + v
            if x["hashes"] and os.path.exists(x["hashes"]):
                arr = array.array("Q")
                with open(x["hashes"], "rb") as f:
                    arr.frombytes(f.read())
                H.update(arr)
            for t in x["samples"]:
                if len([q for q in samples if q.startswith(k)]) < 2 and len(samples) < 12:
                    samples.append(k + ": " + t)
    viol, seen_known = [], {}
    for s in shards:
        for f in s.fails:
            k = match_known(known, f)
            if k:
                seen_known[k["key"]] = k
            else:
                viol.append(f)
    incon = [x for s in shards for x in s.inconclusive]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": P.get("level", "exploration"),
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(H), "nontrivial_cases": nontriv, "rule": P["rule"],
                       "samples": samples or ["(none recorded)"], "observed": dict(sorted(counters.items())),
                       "runs": per_run, "inconclusive": incon, "compiled_objects": B.compiled,
                       "repo_tree": B.th[:16]},
          "assumptions": P.get("assumptions", []) + props.ASSUMPTIONS, "wall_s": round(time.time() - t0, 2),
          "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ef = os.path.join(VERIF, "evidence", pid + ".json")
    if not only_run:
        open(ef + ".tmp", "w").write(json.dumps(ev, indent=1) + "\n")
        os.replace(ef + ".tmp", ef)
    for k in known:
        print("KNOWN-FINDING: property=%s %s%s" % (pid, k["what"], "" if k["key"] in seen_known else " (listed; not hit in this run)"))
    if viol:
        f = viol[0]
        rp = os.path.join(WORK, "%s-%s-seed%d.replay.json" % (pid, tier, seed))
        json.dump({"property": pid, "seed": seed, "tier": tier, "run": f["run"], "shard_no": f["shard_no"],
                   "cases": f["cases"], "case": f["case"], "key": f["key"], "msg": f["msg"], "cmd": f["cmd"],
                   "report": f["text"]}, open(rp, "w"), indent=1)
        for f in viol[:4]:
            print("failed: %s case %d key=%s\n  %s" % (f["shard"], f["case"], f["key"], f["msg"][:600]))
        if os.environ.get("VF_SHOW"):
            print(viol[0]["text"])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    need = P.get("observe", [])
    missing = [c for c in need if counters.get(c, 0) == 0] if not only_run and scale >= 1 else []
    if evals == 0 or missing or (len(H) == 0 and not only_run):
        print("HARNESS ERROR: the run observed nothing for", missing or "any case")
        return 2
    print("%s held: %d cases (%d distinct non-trivial), %d events counted, %.1fs (compiled %d objects), inconclusive %d"
          % (pid, evals, len(H), sum(counters.values()), time.time() - t0, B.compiled, len(incon)))
    if os.environ.get("VF_SHOW"):
        print(json.dumps(ev["coverage"], indent=1))
    shutil.rmtree(work)
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except HarnessError as e:
        print("HARNESS ERROR:", e)
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
