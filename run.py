#!/usr/bin/env python3
"""Builds and runs one check:  run.py <ID> [quick|thorough]      (see DESIGN.md)
   run.py --replay <file>      rebuilds and runs the single case of a replay file
Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken. Anything else: the check itself failed."""
import glob, json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time, zipfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS
REPO = os.environ.get("VERIF_REPO", "/repo")
JAVA = "/usr/lib/jvm/java-17-openjdk-amd64"
NCPU = max(1, min(8, os.cpu_count() or 1))
GXX = "/usr/bin/g++"
CLANGXX = "/usr/bin/clang++"
SAN = ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]
VARIANTS = {
    # name: (compiler, flags for harness and library)
    "asan": (GXX, SAN),
    "rel": (GXX, ["-O3", "-g"]),                      # the optimisation level the product is built with
    "tsan": (GXX, ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=thread"]),
    "clang": (CLANGXX, ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-Wno-everything"]),
    "vg": (GXX, ["-O1", "-g", "-DVH_NO_NEWFILL"]),        # run by valgrind memcheck
    "jvm": (GXX, ["-O2", "-g", "-fPIC"]),                # loaded by a real Java virtual machine
    "jvmx": (GXX, ["-O2", "-g", "-fPIC"]),               # the same with -Xcheck:jni
    "msan": (CLANGXX, ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=memory", "-fno-sanitize-recover=all", "-Wno-everything"]),
}
PREFIX = {"vg": ["/usr/bin/valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--leak-check=no", "--fullpath-after=", "--num-callers=16", "--malloc-fill=0xBE"]}
WALL_LIMIT = {"quick": 780, "thorough": 7200}
def log(*a):
    print(*a, flush=True)
class CheckError(Exception):
    pass

def build(cfg, variant, bdir):
    cc, flags = VARIANTS[variant]
    jvm = variant.startswith("jvm")
    vd = os.path.join(bdir, variant); os.makedirs(vd, exist_ok=True)
    inc = ["-I", os.path.join(HERE, "harness"), "-I", os.path.join(REPO, "boofcpp/src")]
    jobs = []
    lib = sorted(glob.glob(os.path.join(REPO, "boofcpp/src/boofcv/*.cpp")))
    if not lib: raise CheckError("no library sources found")
    if cfg.get("jni"):
        jinc = ["-I", JAVA + "/include", "-I", JAVA + "/include/linux", "-I", os.path.join(REPO, "boofcpp-jni/src/main/cpp"), "-I", os.path.join(REPO, "boofcpp/src/boofcv")]
        inc += jinc
        jl = sorted(glob.glob(os.path.join(REPO, "boofcpp-jni/src/main/cpp/*.cpp")))
        if not jl: raise CheckError("no JNI sources found")
        lib += jl
    for s in lib: jobs.append((s, ["-std=gnu++11"]))
    if jvm: jobs.append((os.path.join(HERE, "jvm", "ledger.cpp"), ["-std=gnu++14"]))
    for s in (["jvmcheck.cpp"] if jvm else cfg["src"] + ["vh_main.cpp"]): jobs.append((os.path.join(HERE, "harness", s), ["-std=gnu++14"]))
    objs = []
    def one(j):
        src, std = j
        obj = os.path.join(vd, re.sub(r"[^A-Za-z0-9]", "_", src) + ".o")
        cmd = [cc] + flags + std + ["-w", "-pthread"] + inc + ["-c", src, "-o", obj]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        return obj, p.returncode, p.stdout, src
    # biggest sources first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with ThreadPoolExecutor(NCPU) as ex:
        for obj, rc, out, src in ex.map(one, jobs):
            if rc: raise CheckError("compilation of %s failed:\n%s" % (src, out[-6000:]))
            objs.append(obj)
    exe = os.path.join(vd, "check")
    if jvm:
        so = os.path.join(vd, "libJNIBoofCPP.so"); main = [o for o in objs if "jvmcheck" in o]
        p = subprocess.run([cc] + flags + ["-shared", "-Wl,--no-undefined", "-Wl,-Bsymbolic", "-pthread"] + [o for o in objs if o not in main] + ["-o", so], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode: raise CheckError("link failed:\n" + p.stdout[-6000:])
        objs = main + [so, "-Wl,-rpath," + vd]
    p = subprocess.run([cc] + flags + ["-pthread"] + objs + ["-o", exe] + cfg.get("ldflags", []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode: raise CheckError("link failed:\n" + p.stdout[-6000:])
    return exe

def build_loader(bdir):
    """a library that records its loading, and a jar with copies of it; the driver itself is compiled by build_java"""
    vd = os.path.join(bdir, "loader"); os.makedirs(vd, exist_ok=True); so = os.path.join(vd, "marker.so")
    p = subprocess.run(["/usr/bin/gcc", "-O1", "-s", "-fPIC", "-shared", "-w", "-I", JAVA + "/include", "-I", JAVA + "/include/linux", os.path.join(HERE, "jvm", "marker.c"), "-o", so], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode: raise CheckError("compilation of marker.c failed:\n" + p.stdout[-3000:])
    base = open(so, "rb").read(); names = []; rnd = random.Random(5)
    with zipfile.ZipFile(os.path.join(vd, "libs.jar"), "w") as z:
        for k in range(800):
            d = rnd.choice(["", "a", "a/b", "arm64-v8a", "jar"]); ext = rnd.choice([".so", ".so", ".dll", ".dylib"]); extra = b"%08d" % k + rnd.randbytes(rnd.choice([0, rnd.randrange(3000), 1024 - (len(base) + 8) % 1024]))
            z.writestr((d + "/" if d else "") + "libJ%d%s" % (k, ext), base + extra, rnd.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED])); names.append("J%d %s %s" % (k, d or "-", ext))
        z.writestr("names.txt", "\n".join(names))
    return so

def build_java(variant, bdir):
    """compiles the repository's Java sources against stand-ins for the BoofCV classes they use; returns a reason when that is impossible"""
    vd = os.path.join(bdir, variant); src = os.path.join(vd, "stubs")
    for m in re.finditer(r"// FILE (\S+)\n(.*?)(?=// FILE |\Z)", open(os.path.join(HERE, "jvm", "stubs.txt")).read(), re.S):
        f = os.path.join(src, m.group(1)); os.makedirs(os.path.dirname(f), exist_ok=True); open(f, "w").write(m.group(2))
    files = [os.path.join(HERE, "jvm", "Loader.java" if variant == "loader" else "Driver.java")]
    for root in (src, os.path.join(REPO, "boofcpp-jni/src/main/java")):
        for d, _, fs in os.walk(root): files += [os.path.join(d, f) for f in sorted(fs) if f.endswith(".java")]
    os.makedirs(os.path.join(vd, "cls"), exist_ok=True)
    try: p = subprocess.run([JAVA + "/bin/javac", "-J-XX:-UsePerfData", "-nowarn", "-encoding", "UTF-8", "-d", os.path.join(vd, "cls")] + files, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    except OSError as e: return str(e)
    return None if p.returncode == 0 else "javac: " + p.stdout[:600]

ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=0:hard_rss_limit_mb=3000:max_allocation_size_mb=2500:allocator_may_return_null=0:max_malloc_fill_size=1048576:malloc_fill_byte=190:detect_stack_use_after_return=1:strict_init_order=1:detect_odr_violation=0:quarantine_size_mb=64:symbolize=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=99:second_deadlock_stack=1:history_size=4",
    "MSAN_OPTIONS": "exitcode=99:abort_on_error=0",
}
def brief(stderr):
    """the informative lines of a sanitizer report"""
    keep = [l.rstrip()[:220] for l in stderr.split("\n") if re.search(r"ERROR:|WARNING: Thread|SUMMARY|^\s+#[0-7] |READ of|WRITE of|located|runtime error|Assertion|VH-", l)]
    return "\n".join(keep[:26])
def classify(stderr, rc):
    """turns the end of a crashed shard into a violation key and message, or None if it is not the code's fault"""
    m = re.search(r"VH-TERMINATE case \d+: (.*)", stderr)
    frames = re.findall(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?):(\d+)", stderr)
    site = ""
    for fn, f, ln in frames:
        if "/boofcv/" in f or "boofcpp-jni" in f:
            site = re.sub(r"<.*", "", re.sub(r"\(.*", "", fn)) + "@" + os.path.basename(f); break
    mv = re.search(r"==\d+== (Conditional jump|Use of uninit|Invalid read|Invalid write|Invalid free|Mismatched free|Source and destination overlap|Syscall param|Argument)[^\n]*", stderr)
    if mv and rc == 99:
        fr = re.findall(r"==\d+==\s+(?:at|by) 0x[0-9A-F]+: (.+?) \((/\S+?):(\d+)\)", stderr)
        for fn, f, ln in fr:
            if "/boofcv/" in f or "boofcpp-jni" in f:
                site = re.sub(r"<.*", "", re.sub(r"\(.*", "", fn)) + "@" + os.path.basename(f); break
        return "valgrind:%s:%s" % (mv.group(1).replace(" ", "-"), site), "\n".join(l[:220] for l in stderr.split("\n")[:24])
    m2 = re.search(r"SUMMARY: (\w+Sanitizer): ([\w-]+)", stderr)
    m3 = re.search(r"(\S+?):(\d+):\d+: runtime error: (.*)", stderr)
    if m3:
        what = re.sub(r"-?\d+", "N", re.sub(r"0x[0-9a-f]+", "P", m3.group(3)))[:80]
        return "ubsan:%s:%s" % (os.path.basename(m3.group(1)), what), m3.group(0)[:300]
    if m2:
        return "%s:%s:%s" % ({"AddressSanitizer": "asan", "ThreadSanitizer": "tsan", "MemorySanitizer": "msan"}.get(m2.group(1), m2.group(1)), m2.group(2), site), brief(stderr)
    mb = re.search(r"(?:WARNING|ERROR): (\w+)Sanitizer: ([\w-]+(?: race)?)", stderr)
    if mb: return "%s:%s:%s" % ({"Address": "asan", "Thread": "tsan", "Memory": "msan"}.get(mb.group(1), mb.group(1)), mb.group(2).replace(" ", "-"), site), brief(stderr)
    if "hard rss limit exhausted" in stderr or "requested allocation size" in stderr or "out-of-memory" in stderr:
        return "memory-exhausted:" + site, brief(stderr)
    if m: return "terminate:" + m.group(1)[:60], m.group(0)[:300]
    if "Assertion '" in stderr:
        a = re.search(r"Assertion '(.*?)' failed", stderr)
        return "assert:" + (a.group(1)[:80] if a else ""), brief(stderr)
    if rc < 0 and -rc in (signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE, signal.SIGILL, signal.SIGABRT, signal.SIGTRAP):
        return "crash:" + signal.Signals(-rc).name, brief(stderr)
    if rc == 99: return "sanitizer:unknown", brief(stderr)
    return None, None

class Runner:
    def __init__(self, pid, tier, seed, bdir):
        self.pid, self.tier, self.seed, self.bdir = pid, tier, seed, bdir
        self.cfg = CHECKS[pid]
        self.viol = []           # dicts: variant, case, key, msg, desc
        self.errors = []
        self.res = {}            # variant -> list of result dicts
        self.deadline = time.time() + WALL_LIMIT[tier]
        self.lock = threading.Lock()
    def env(self, variant):
        e = dict(os.environ); e.update(ENV)
        e["LC_ALL"] = "C"
        if variant == "vg": e["VH_NO_LIMIT"] = "1"
        for k, v in self.cfg.get("env", {}).items(): e[k] = e.get(k, "") + (":" if k in e and k.endswith("OPTIONS") else "") + v
        return e
    def exec_range(self, variant, exe, first, last, step, tag):
        """one process; returns (rc, stderr, lines, status_case, phase)"""
        out = os.path.join(self.bdir, "out.%s.%s" % (variant, tag)); st = out + ".st"; er = out + ".err"
        for f in (out, st):
            if os.path.exists(f): os.remove(f)
        cmd = PREFIX.get(variant, []) + [exe, "--seed", str(self.seed), "--first", str(first), "--last", str(last), "--step", str(step), "--out", out,
               "--status", st, "--tier", self.tier, "--variant", variant, "--limit", str(self.cfg.get("limit", 60))]
        with open(er, "w") as ef:
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, env=self.env(variant), cwd=self.bdir, start_new_session=True)
            tmo = self.deadline - time.time()
            if self.cfg.get("wall_per_process"): tmo = min(tmo, self.cfg["wall_per_process"])
            rc = self.watch(p, max(1, tmo), er, st)
        stderr = open(er, errors="replace").read()
        lines = open(out, errors="replace").read().split("\n") if os.path.exists(out) else []
        case, phase = None, ""
        if os.path.exists(st):
            b = open(st, "rb").read()
            case = int.from_bytes(b[0:8], "little"); phase = b[16:].split(b"\0")[0].decode(errors="replace")
        return rc, stderr, lines, case, phase
    def watch(self, p, tmo, er, st):
        """waits for the process; ends it when the time is over, when a sanitizer has begun a report and got stuck in it
        (the runtimes can deadlock on their own locks while symbolizing), or when it neither advances nor uses the processor"""
        end = time.time() + tmo; report = None; last = None; since = time.time(); pause = 0.02
        while True:
            try: return p.wait(timeout=pause)
            except subprocess.TimeoutExpired: pass
            pause = min(1.0, pause * 1.5); now = time.time(); verdict = None
            if now > end: verdict = "timeout"
            if report is None and os.path.getsize(er) and re.search(rb"(WARNING|ERROR): \w+Sanitizer|runtime error:", open(er, "rb").read()): report = now
            if report is not None and now - report > 30: verdict = 99
            try:
                f = open("/proc/%d/stat" % p.pid).read().rsplit(")", 1)[1].split(); cpu = int(f[11]) + int(f[12])
                case = open(st, "rb").read(8) if os.path.exists(st) else b""
                if last is None or case != last[0] or cpu > last[1] + 20: last = (case, cpu); since = now
                elif now - since > 90: verdict = "timeout"
            except (OSError, IndexError, ValueError): pass
            if verdict is not None:
                try: os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError: pass
                r = p.wait()
                return r if verdict == "timeout" and r >= 0 else verdict
    def absorb(self, variant, lines):
        ended = False
        for l in lines:
            f = l.split("\t")
            if f[0] == "V": self.add(variant, int(f[1]), f[2], f[3], f[4] if len(f) > 4 else "")
            elif f[0] == "R":
                try: d = json.loads(l[2:])
                except ValueError: continue          # the process ended while it was writing
                with self.lock: self.res.setdefault(variant, []).append(d)
            elif f[0] == "E": ended = True
        return ended
    def add(self, variant, case, key, msg, desc):
        with self.lock: self.viol.append({"variant": variant, "case": case, "key": key, "msg": msg, "desc": desc})
    def shard(self, variant, exe, lo, hi, s, n):
        first, crashes = lo + s, 0
        while first < hi:
            rc, stderr, lines, case, phase = self.exec_range(variant, exe, first, hi, n, "s%d_%d" % (s, crashes))
            ended = self.absorb(variant, lines)
            if rc == 0 and ended: return
            if rc == "timeout":
                if case is not None and time.time() < self.deadline - 60 and not self.confirm_hang(variant, exe, case, phase):
                    # it finished when run alone: go on behind it; a second time is an error of the check
                    crashes += 1; first = case + n
                    if crashes >= 3: self.errors.append("%s shard %d: case %s did not finish in time, but did when run alone" % (variant, s, case)); return
                    continue
                if not any(v["key"].startswith("hang") for v in self.viol):
                    self.errors.append("%s shard %d ran out of wall time at case %s (%s)" % (variant, s, case, phase))
                return
            if case is None: self.errors.append("%s shard %d: rc %s, no status: %s" % (variant, s, rc, stderr[-800:])); return
            if rc == 97:
                if any(v["key"].startswith("hang") for v in self.viol): return
                self.confirm_hang(variant, exe, case, phase)
            else:
                key, msg = classify(stderr, rc)
                if key is None:
                    # not attributable (killed from outside?): run this case once more, alone
                    rc2, st2, l2, c2, ph2 = self.exec_range(variant, exe, case, case + 1, 1, "s%d_%d_again" % (s, crashes))
                    key, msg = classify(st2, rc2) if rc2 != 0 else (None, None)
                    if key is None:
                        if rc2 != 0: self.errors.append("%s: case %d ended with %s / %s: %s" % (variant, case, rc, rc2, stderr[-800:])); return
                if key: self.add(variant, case, key, msg, phase)
            crashes += 1
            first = case + n
            if crashes >= 3: return
    def run_jvm(self, variant, exe, lo, hi, n, single):
        """real Java virtual machines run jvm/Driver.java; what it records is piped to the offline checker"""
        vd = os.path.dirname(exe); why = build_java(variant, self.bdir)
        if why: log("note: %s: no Java phase: %s" % (self.pid, why)); self.absorb(variant, ['R\t{"evaluations":0,"counters":{"jvm.not.possible":1},"sigs":[],"states":[],"samples":[]}']); return
        gcs = [["-XX:+UseSerialGC"], ["-XX:+UseParallelGC"], ["-XX:+UseG1GC"], ["-XX:+UseSerialGC", "-Xmn2m"]]
        def one(s, first, tag, last, step):
            base = os.path.join(self.bdir, "jvm.%s.%s" % (variant, tag)); fifo, st, er, out = base + ".log", base + ".st", base + ".err", base + ".out"
            for f in (fifo, st, er, out, fifo + ".report"):
                if os.path.exists(f): os.remove(f)
            os.mkfifo(fifo)
            cmd = [JAVA + "/bin/java", "-Xmx400m", "-Xshare:auto", "-XX:-UsePerfData", "-XX:-CreateCoredumpOnCrash", "-XX:ErrorFile=" + base + ".hs", "-Djava.io.tmpdir=" + vd, "-Djava.library.path=" + vd] + gcs[s % len(gcs)] + (["-Xcheck:jni"] if variant == "jvmx" else []) + ["-cp", os.path.join(vd, "cls"), "Driver", str(self.seed), str(first), str(last), str(step), fifo, st, vd]
            env = {k: v for k, v in os.environ.items() if not k.startswith(("JAVA_", "JDK_", "_JAVA"))}; env["LC_ALL"] = "C"
            keep = os.open(fifo, os.O_RDWR)            # neither side blocks in open(); the reader sees the end when this is closed
            chk = subprocess.Popen([exe, fifo, out], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=self.bdir, start_new_session=True)
            time.sleep(0.1)
            with open(er, "w") as ef: p = subprocess.Popen(cmd, stdout=ef, stderr=subprocess.STDOUT, env=env, cwd=vd, start_new_session=True)
            rc = self.watch(p, max(1, self.deadline - time.time()), er, st)
            os.close(keep)
            try: crc = chk.wait(timeout=120)
            except subprocess.TimeoutExpired: chk.kill(); chk.wait(); crc = "timeout"
            rd = lambda f: open(f, errors="replace").read() if os.path.exists(f) else ""
            b = open(st, "rb").read() if os.path.exists(st) else b""
            return rc, crc, rd(er), rd(fifo + ".report").split("\n"), rd(out).split("\n"), int.from_bytes(b[0:8], "little") if len(b) >= 8 else None, b[16:].split(b"\0")[0].decode(errors="replace"), rd(base + ".hs")
        mine = None if self.pid == "C19" else re.compile(r"^(jvm-crash|xcheck|raised|used-after-destroy|destroy|native-leak|wrote-outside|input-modified)")
        def take(r):
            rc, crc, text, rep, outl, case, phase, hs = r; vs = []
            for l in rep + outl:
                f = l.split("\t")
                if f[0] == "V" and (mine is None or mine.match(f[2])): vs.append((int(f[1]), f[2], f[3], f[4] if len(f) > 4 else ""))
                elif f[0] == "N" and len(f) > 2: self.absorb(variant, ['R\t{"evaluations":0,"counters":%s,"sigs":[],"states":[],"samples":[]}' % f[2]])
                elif f[0] == "R": self.absorb(variant, [l])
            for v in vs: self.add(variant, *v)
            if variant == "jvmx" and case is not None:
                for m in re.finditer(r"((?:WARNING|FATAL ERROR) in native method: [^\n]*|WARNING: JNI local refs[^\n]*)((?:\n\s+at [^\n]*)*)", text):
                    if "org.boofcpp" in m.group(2): self.add(variant, case, "xcheck:" + re.sub(r"[^A-Za-z]+", "-", m.group(1))[:90], "-Xcheck:jni: " + m.group(1) + " | " + " ".join(m.group(2).split())[:300], phase)
            return rc, crc, text, case, phase, hs, "E" in rep and "E" in outl
        def shard(s):
            rc, crc, text, case, phase, hs, ended = take(one(s, lo + s, "s%d" % s, hi, n))
            if rc == 0 and crc == 0 and ended: return
            if case is None: log("note: %s: a Java virtual machine did not run: rc %s %s" % (self.pid, rc, text[:300])); self.absorb(variant, ['R\t{"evaluations":0,"counters":{"jvm.not.started":1},"sigs":[],"states":[],"samples":[]}']); return
            if rc == "timeout": self.errors.append("%s shard %d did not finish at case %s (%s)" % (variant, s, case, phase)); return
            sig = re.search(r"#\s+(SIG\w+|Internal Error|Out of Memory Error)", hs); fr = re.search(r"# Problematic frame:\n# (.*)", hs)
            native = "libJNIBoofCPP" in (fr.group(1) if fr else "") or "libJNIBoofCPP" in hs.split("\nR")[0]
            if rc != 0 and not native:                   # not attributable: once more, alone
                rc, crc, text, case, phase, hs2, ended = take(one(s, case, "s%d_again" % s, case + 1, 1))
                if rc == 0: self.errors.append("%s: the virtual machine ended at case %s, but not when run alone" % (variant, case)); return
                hs = hs2 or hs
            if rc != 0: self.add(variant, case, "jvm-crash:" + (sig.group(1).replace(" ", "-") if sig else str(rc)), "the Java virtual machine ended with %s: %s %s" % (rc, fr.group(1) if fr else "", text[-600:]), phase); return
            if crc != 0: self.errors.append("%s: checker of the log ended with %s at case %s" % (variant, crc, case))
        with ThreadPoolExecutor(n) as ex: list(ex.map(shard, range(n)))
    def run_loader(self, variant, so, lo, hi, n):
        """virtual machines run jvm/Loader.java, which loads recording libraries through the repository's loader"""
        vd = os.path.dirname(so); why = build_java(variant, self.bdir)
        if why: log("note: %s: no Java: %s" % (self.pid, why)); self.absorb(variant, ['R\t{"evaluations":0,"counters":{"jvm.not.possible":1},"sigs":[],"states":[],"samples":[]}']); return
        cls = os.path.join(vd, "cls"); env = {k: v for k, v in os.environ.items() if not k.startswith(("JAVA_", "JDK_", "_JAVA", "VH_"))}; env["LC_ALL"] = "C"
        def one(s):
            b = os.path.join(vd, "s%d" % s); st, er = b + ".st", b + ".err"
            for d in ("", "/tmp", "/cp", "/cwd"): os.makedirs(b + d)
            e = dict(env); e["VH_LOADS"] = b + "/loads"
            cmd = [JAVA + "/bin/java", "-Xmx400m", "-Xshare:auto", "-XX:+UseSerialGC", "-XX:-UsePerfData", "-XX:-CreateCoredumpOnCrash", "-XX:ErrorFile=" + b + ".hs", "-Djava.io.tmpdir=" + b + "/tmp",
                   "-cp", ":".join([cls, b + "/cp", os.path.join(vd, "libs.jar")]), "Loader", str(self.seed), str(lo + s), str(hi), str(n), b, st, so, JAVA + "/bin/java", cls]
            with open(er, "w") as ef: p = subprocess.Popen(cmd, stdout=ef, stderr=subprocess.STDOUT, env=e, cwd=b + "/cwd", start_new_session=True)
            rc = self.watch(p, max(1, self.deadline - time.time()), er, st); text = open(er, errors="replace").read()
            rep = open(st + ".report", errors="replace").read().split("\n") if os.path.exists(st + ".report") else []
            sb = open(st, "rb").read() if os.path.exists(st) else b""; case = int.from_bytes(sb[0:8], "little") if len(sb) >= 8 else None; phase = sb[16:].split(b"\0")[0].decode(errors="replace")
            self.absorb(variant, rep)
            if case is None: log("note: %s: a Java virtual machine did not run: rc %s %s" % (self.pid, rc, text[:300])); self.absorb(variant, ['R\t{"evaluations":0,"counters":{"jvm.not.started":1},"sigs":[],"states":[],"samples":[]}']); return
            if rc == 0 and "E" in rep:
                left = os.listdir(b + "/tmp")
                if left: self.add(variant, case, "left-at-exit", "left in the temporary directory after the virtual machine ended: %s" % left[:5], phase)
            elif rc == "timeout": self.errors.append("%s shard %d did not finish at case %s (%s)" % (variant, s, case, phase))
            else: self.errors.append("%s shard %d: the virtual machine ended with %s at case %s (%s): %s" % (variant, s, rc, case, phase, text[-800:]))
        with ThreadPoolExecutor(n) as ex: list(ex.map(one, range(n)))
    def confirm_hang(self, variant, exe, case, phase):
        rc, stderr, lines, c, ph = self.exec_range(variant, exe, case, case + 1, 1, "hang%d" % case)
        if rc in (97, "timeout"): self.add(variant, case, "hang", "did not finish within the CPU limit, twice: " + phase, phase); return True
        self.absorb(variant, lines)
        if rc != 0:
            key, msg = classify(stderr, rc)
            if key: self.add(variant, case, key, msg, phase)
        return False
    def run(self, only=None):
        vs = self.cfg["variants"]
        for i, (variant, q, t) in enumerate(vs):
            if only and only[0] != variant: continue
            t0 = time.time()
            try: exe = build_loader(self.bdir) if variant == "loader" else build(self.cfg, variant, self.bdir)
            except CheckError as e:
                self.errors.append(str(e)); break
            tb = time.time() - t0
            lo = i * 1000000000
            if only: lo, n, hi = only[1], 1, only[1] + 1
            else:
                cnt = q if self.tier == "quick" else t
                n = min(NCPU, self.cfg.get("procs", NCPU)); hi = lo + cnt
            if variant == "loader": self.run_loader(variant, exe, lo, hi, n)
            elif variant.startswith("jvm"): self.run_jvm(variant, exe, lo, hi, n, only is not None)
            else:
              with ThreadPoolExecutor(n) as ex:
                list(ex.map(lambda s: self.shard(variant, exe, lo, hi, s, n), range(n)))
            log("%s %s: built in %.1fs, ran in %.1fs" % (self.pid, variant, tb, time.time() - t0 - tb))
            shutil.rmtree(os.path.join(self.bdir, variant), ignore_errors=True)
            if self.viol and len(self.viol) > 40: break

def load_known():
    known = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m: known.append((m.group(1), m.group(2), m.group(3)))
    return known

def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        rp = json.load(open(sys.argv[2]))
        pid, tier, seed, only = rp["property"], rp["tier"], rp["seed"], (rp["variant"], rp["case"])
    else:
        pid = sys.argv[1]; only = None
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = CHECKS[pid]
    t0 = time.time()
    bdir = tempfile.mkdtemp(prefix="vcheck_%s_" % pid, dir=os.environ.get("VERIF_TMP", "/tmp"))
    try:
        r = Runner(pid, tier, seed, bdir)
        r.run(only)
    except CheckError as e:
        log("CHECK ERROR:", e); return 3
    finally:
        shutil.rmtree(bdir, ignore_errors=True)
    # ---- merge
    known = load_known()
    new, seen_known = [], {}
    for v in r.viol:
        k = [x for x in known if x[0] == pid and x[1] == v["key"].replace(" ", "_")]
        if k: seen_known[k[0]] = v
        else: new.append(v)
    counters, sigs, states, samples, ev, per, slow = {}, set(), set(), [], 0, {}, {}
    for variant, l in r.res.items():
        for x in l:
            ev += x["evaluations"]; per[variant] = per.get(variant, 0) + x["evaluations"]
            for k, c in x["counters"].items(): counters[k] = counters.get(k, 0) + c
            if x.get("max_cpu"): slow[variant] = max(slow.get(variant, [0, 0]), x["max_cpu"])
            sigs.update(x["sigs"]); states.update(x["states"])
            if len(samples) < 6: samples += [variant + " " + s for s in x["samples"][:1]]
    if only is None:
        need = cfg.get("require", [])
        missing = [k for k in need if counters.get(k, 0) == 0]
        if counters.get("jvm.not.possible") or counters.get("jvm.not.started"): missing = [k for k in missing if not k.startswith("jvm.")]
        if not new and not r.errors and (missing or ev == 0 or len(sigs) == 0):
            r.errors.append("the run observed too little: evaluations=%d distinct=%d missing events=%s" % (ev, len(sigs), missing))
        evd = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
               "coverage": {"evaluations": ev, "distinct_nontrivial": len(sigs), "rule": cfg["rule"], "samples": samples[:6] or ["(none)"],
                            "cases_per_build": per, "slowest_case_cpu_seconds": slow, "events": counters, "distinct_observed_states": len(states),
                            "known_findings_seen": sorted(k[1] for k in seen_known)},
               "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f: json.dump(evd, f, indent=1)
    for k in sorted(seen_known): log("KNOWN-FINDING: property=%s %s (%s)" % (pid, k[2], k[1]))
    if new:
        rd = os.path.join(HERE, "evidence", "replay"); os.makedirs(rd, exist_ok=True)
        done = set()
        for v in sorted(new, key=lambda v: (v["variant"], v["case"])):
            if v["key"] in done: continue
            done.add(v["key"])
            path = os.path.join(rd, "%s-%d.json" % (pid, len(done)))
            with open(path, "w") as f: json.dump(dict(v, property=pid, tier=tier, seed=seed, how="python3 run.py --replay " + path), f, indent=1)
            log("  key: %s\n  case %s/%d: %s\n  %s" % (v["key"], v["variant"], v["case"], v["desc"][:700], v["msg"][:3000]))
            log("VIOLATION property=%s replay=%s" % (pid, path))
            if len(done) >= 8: break
        for e in r.errors[:3]: log("note:", e)
        return 1
    if r.errors:
        for e in r.errors[:10]: log("CHECK ERROR:", e)
        return 3
    log("%s %s seed=%d: held on %d cases, %d distinct non-trivial, %.1fs" % (pid, tier, seed, ev, len(sigs), time.time() - t0))
    return 0
if __name__ == "__main__":
    sys.exit(main())
