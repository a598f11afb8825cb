"""Shared machinery of the checks: builds, runs, known findings, evidence, verdicts."""
import os, sys, json, subprocess, hashlib, re, time, glob, shutil, tempfile, concurrent.futures as cf, threading

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
HARN = os.path.join(HERE, "harness")
CORES = min(8, os.cpu_count() or 8)
RUN_TIMEOUT = 850          # wall clock guard around one process; firing is an error, not a verdict
VERSIONS = list(range(7, 17))

class CheckError(Exception):
    pass

COMMON = "-w -g -fno-omit-frame-pointer"
SHORT = "-include " + os.path.join(HARN, "shortwchar.hxx") + " "
FLAVORS = {
    # what users get: the optimised build
    "plain": dict(cc="gcc", cxx="g++", lib="-O2 -DNDEBUG " + COMMON, har="-O2 " + COMMON, link=""),
    "asan":  dict(cc="gcc", cxx="g++", lib="-O1 -D_GLIBCXX_ASSERTIONS -fsanitize=address,undefined -fno-sanitize-recover=all " + COMMON,
                  har="-O1 -D_GLIBCXX_ASSERTIONS -fsanitize=address,undefined -fno-sanitize-recover=all " + COMMON, link="-fsanitize=address,undefined"),
    "clang": dict(cc="clang", cxx="clang++", lib="-O2 -DNDEBUG " + COMMON, har="-O2 " + COMMON, link=""),
    "fuzz":  dict(cc="clang", cxx="clang++", lib="-O1 -fsanitize=fuzzer-no-link,address,undefined -fno-sanitize-recover=all " + COMMON,
                  har="-O1 -DVM_FUZZ -fsanitize=address,undefined -fno-sanitize-recover=all " + COMMON, link="-fsanitize=fuzzer,address,undefined"),
    "tsan":  dict(cc="gcc", cxx="g++", lib="-O1 -fsanitize=thread " + COMMON, har="-O1 -DVM_NO_HANDLERS -fsanitize=thread " + COMMON, link="-fsanitize=thread"),
    "short": dict(cc="gcc", cxx="g++", lib="-O2 -DNDEBUG -fshort-wchar -D_GLIBCXX_ASSERTIONS " + SHORT + COMMON, har="-O2 -fshort-wchar -D_GLIBCXX_ASSERTIONS " + COMMON, link=""),
    "shortasan": dict(cc="gcc", cxx="g++", lib="-O1 -fshort-wchar -D_GLIBCXX_ASSERTIONS " + SHORT + "-fsanitize=address,undefined -fno-sanitize-recover=all " + COMMON,
                  har="-O1 -fshort-wchar -D_GLIBCXX_ASSERTIONS -fsanitize=address,undefined -fno-sanitize-recover=all " + COMMON, link="-fsanitize=address,undefined"),
    # every edge of the library (and of what its headers put into the harness) calls back: work counters, injected delays
    # (gcc, as the other regimes that are compared with each other: the generators' order of evaluation is the compiler's)
    "trace": dict(cc="gcc", cxx="g++", lib="-O1 -fsanitize-coverage=trace-pc -D_GLIBCXX_ASSERTIONS " + COMMON, har="-O1 -fsanitize-coverage=trace-pc -D_GLIBCXX_ASSERTIONS " + COMMON, link=""),
    # how else a user may build the library (P23)
    "O0":    dict(cc="gcc", cxx="g++", lib="-O0 " + COMMON, har="-O0 " + COMMON, link=""),
    "O3":    dict(cc="gcc", cxx="g++", lib="-O3 -DNDEBUG " + COMMON, har="-O3 " + COMMON, link=""),
    "Os":    dict(cc="gcc", cxx="g++", lib="-Os " + COMMON, har="-Os " + COMMON, link=""),
    "uchar": dict(cc="gcc", cxx="g++", lib="-O2 -DNDEBUG -funsigned-char " + COMMON, har="-O2 -funsigned-char " + COMMON, link=""),
    "clanguchar": dict(cc="clang", cxx="clang++", lib="-O1 -funsigned-char " + COMMON, har="-O1 -funsigned-char " + COMMON, link=""),
    "debug": dict(cc="gcc", cxx="g++", lib="-O1 " + COMMON, har="-O1 " + COMMON, link=""),
}
ENV = dict(os.environ, LC_ALL="C",
           ASAN_OPTIONS="abort_on_error=0:exitcode=77:detect_leaks=1:allocator_may_return_null=0:detect_stack_use_after_return=1:strict_string_checks=0:handle_abort=1:print_stats=0",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=77",
           LSAN_OPTIONS="exitcode=76",
           TSAN_OPTIONS="halt_on_error=1:exitcode=77:second_deadlock_stack=1")
for k in ("CXXFLAGS", "CFLAGS", "LDFLAGS", "CPPFLAGS"):
    ENV.pop(k, None)

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=ENV, **kw)

def file_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:16]

_locks = {}; _glock = threading.Lock()
def _lock(name):
    with _glock:
        return _locks.setdefault(name, threading.Lock())

def build_lib(flavor, version):
    """Builds /repo's library for one flavor and Unicode version; returns the archive."""
    f = FLAVORS[flavor]
    tag = hashlib.sha256((f["cxx"] + f["lib"] + REPO).encode()).hexdigest()[:8]
    d = os.path.join(BUILD, "lib", f"{flavor}-u{version}-{tag}")
    with _lock(d):
        if not os.path.exists(os.path.join(d, "build.ninja")):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            r = sh(["cmake", "-G", "Ninja", "-S", os.path.join(HARN, "lib"), "-B", d, f"-DANSAK_REPO={REPO}",
                    f"-DANSAK_UNICODE_SUPPORT={version}", f"-DCMAKE_C_COMPILER={f['cc']}", f"-DCMAKE_CXX_COMPILER={f['cxx']}",
                    f"-DCMAKE_CXX_FLAGS={f['lib']}", "-DCMAKE_BUILD_TYPE=", "-DCMAKE_TRY_COMPILE_TARGET_TYPE=STATIC_LIBRARY"])
            if r.returncode:
                shutil.rmtree(d, ignore_errors=True)
                raise CheckError("configuring the library failed:\n" + r.stdout[-3000:])
        r = sh(["ninja", "-C", d, "ansakString"])
        if r.returncode:
            raise CheckError(f"building the library ({flavor}, Unicode {version}) failed:\n" + r.stdout[-3000:])
        a = glob.glob(os.path.join(d, "**", "libansakString.a"), recursive=True)
        if len(a) != 1:
            raise CheckError("no library was built")
        return a[0]

def repo_headers():
    return [p for p in glob.glob(os.path.join(REPO, "interface", "**", "*"), recursive=True) if os.path.isfile(p)]

def build_harness(src, flavor, version, extra="", cov=False, std="c++17", link_extra=""):
    """Compiles harness/<src> (once per flavor) and links it with the library of that version."""
    f = FLAVORS[flavor]
    lib = build_lib(flavor, version)
    har = f["har"] + (" -fsanitize=fuzzer-no-link" if cov and flavor == "fuzz" else "")
    deps = [os.path.join(HARN, src)] + glob.glob(os.path.join(HARN, "*.hxx")) + [os.path.join(HERE, "oracle", "ucd_tables.inc")] + \
           glob.glob(os.path.join(HERE, "oracle", "*.inc")) + repo_headers()
    oh = hashlib.sha256((file_hash(set(deps)) + f["cxx"] + har + extra + std + REPO).encode()).hexdigest()[:16]
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    name = os.path.splitext(os.path.basename(src))[0]
    obj = os.path.join(BUILD, "obj", f"{name}-{flavor}-{oh}.o")
    with _lock(obj):
        if not os.path.exists(obj):
            r = sh([f["cxx"], f"-std={std}"] + har.split() + extra.split() +
                   ["-I", HARN, "-I", os.path.join(HERE, "oracle"), "-I", os.path.join(REPO, "interface"), "-c", os.path.join(HARN, src), "-o", obj + ".tmp"])
            if r.returncode:
                raise CheckError(f"compiling {src} ({flavor}) failed:\n" + r.stdout[-4000:])
            os.rename(obj + ".tmp", obj)
    xh = hashlib.sha256((oh + file_hash([lib]) + f["link"] + link_extra).encode()).hexdigest()[:16]
    exe = os.path.join(BUILD, "bin", f"{name}-{flavor}-u{version}-{xh}")
    with _lock(exe):
        if not os.path.exists(exe):
            r = sh([f["cxx"]] + f["link"].split() + [obj, lib, "-lpthread"] + link_extra.split() + ["-o", exe + ".tmp"])
            if r.returncode:
                raise CheckError(f"linking {src} ({flavor}) failed:\n" + r.stdout[-4000:])
            os.rename(exe + ".tmp", exe)
    return exe

# ---------------------------------------------------------------------- dictionary of literals in /repo
LITERALS = os.path.join(HERE, "oracle", "literals.txt")    # the literals of the tree the machinery was written for

def mine_dictionary(path):
    """Literals in /repo's sources steer the generators (as texts, code points, lengths); those that are not in
    oracle/literals.txt, i.e. that a change brought in, are marked and used more often. They decide nothing."""
    nums, strs, tabs = set(), set(), set()
    files = [p for pat in ("source/*.cxx", "source/*.hxx", "interface/**/*.hxx", "mkUnicodeTestData/*.cxx") for p in glob.glob(os.path.join(REPO, pat), recursive=True)]
    bits = glob.glob(os.path.join(REPO, "source/bits*/*.cxx"))
    for p in files + bits:
        t = open(p, errors="replace").read()
        t = re.sub(r"//[^\n]*|/\*.*?\*/", " ", t, flags=re.S)
        big = p in bits
        for m in re.finditer(r'(?:u8|u|U|L)?"((?:[^"\\\n]|\\.)*)"', t):
            s = m.group(1)
            try:
                b = s.encode("latin-1", "replace").decode("unicode_escape").encode("utf-8", "surrogatepass")
                b2 = re.sub(rb"\\x([0-9a-fA-F]{1,2})", lambda k: bytes([int(k.group(1), 16)]), s.encode("utf-8"))
                for x in (b, b2):
                    if 0 < len(x) <= 200: strs.add(x)
            except Exception:
                pass
        for m in re.finditer(r"'((?:[^'\\\n]|\\.)+)'", t):
            try:
                c = m.group(1).encode("latin-1", "replace").decode("unicode_escape")
                if len(c) == 1: nums.add(ord(c))
            except Exception:
                pass
        for m in re.finditer(r"\b(0[xX][0-9a-fA-F]+|\d+)(?:[uUlL]*)\b", t.replace("'", "") if not big else t):
            v = int(m.group(1), 0) if not re.fullmatch(r"0\d+", m.group(1)) else int(m.group(1), 8) if re.fullmatch(r"0[0-7]+", m.group(1)) else 0
            if 0 < v < 2**32: (tabs if big else nums).add(v)
        if big: continue        # their numbers are the tables, which are swept exhaustively anyway
        for m in re.finditer(r"\b(\d+|0[xX][0-9a-fA-F]+)[uUlL]*\s*([*+-]|<<)\s*(\d+|0[xX][0-9a-fA-F]+)\b", t):
            a, b = int(m.group(1), 0) if not m.group(1).startswith("00") else 0, int(m.group(3), 0) if not re.fullmatch(r"0\d+", m.group(3)) else 0
            v = {"*": a * b, "+": a + b, "-": a - b, "<<": a << min(b, 40)}[m.group(2)]
            if 0 < v < 2**32: nums.add(v)
    old = set(open(LITERALS).read().split("\n")) if os.path.exists(LITERALS) else None
    fn = [n for n in sorted(nums | tabs) if old is not None and f"n {n}" not in old]
    fs = [s for s in sorted(strs) if old is not None and f"s {s.hex()}" not in old]
    with open(path, "w") as f:
        for n in sorted(nums): f.write(f"n {n}\n")
        for s in sorted(strs): f.write(f"s {s.hex()}\n")
        for n in fn[:200]: f.write(f"N {n}\n")
        for s in fs[:100]: f.write(f"S {s.hex()}\n")
    with open(path + ".all", "w") as f:
        for n in sorted(nums | tabs): f.write(f"n {n}\n")
        for s in sorted(strs): f.write(f"s {s.hex()}\n")
    with open(path + ".fuzz", "w") as f:
        for i, s in enumerate(sorted(strs)):
            if 0 < len(s) <= 64:
                f.write(f'k{i}="' + "".join(f"\\x{b:02x}" for b in s) + '"\n')
        for n in sorted(nums):
            k = 1 if n < 256 else 2 if n < 65536 else 4
            f.write(f'n{n}="' + "".join(f"\\x{b:02x}" for b in n.to_bytes(k, "little")) + '"\n')
    return len(nums), len(strs), len(fn), len(fs)

# ---------------------------------------------------------------------- known findings
def load_known():
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known:\s+property=(\S+)\s+key=(\S+)\s+(.*)", l)
            if m: out.append((m.group(1), m.group(2), m.group(3).strip()))
    return out

def match_known(prop, key, known):
    if not key: return None
    for p, pat, what in known:
        if p != prop: continue
        if pat == key: return (pat, what)
        # a range of code points: lower:14:10570-1057A
        a, b = pat.rsplit(":", 1) if ":" in pat else (None, None)
        c, d = key.rsplit(":", 1) if ":" in key else (None, None)
        if a is not None and a == c and re.fullmatch(r"[0-9A-Fa-f]+-[0-9A-Fa-f]+", b) and re.fullmatch(r"[0-9A-Fa-f]+", d):
            lo, hi = (int(x, 16) for x in b.split("-"))
            if lo <= int(d, 16) <= hi: return (pat, what)
    return None

# ---------------------------------------------------------------------- one check
class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.violations, self.known_hit = [], {}
        self.evaluations = self.distinct = 0
        self.events, self.samples, self.passes = {}, [], []
        self.known = load_known()
        self.lock = threading.Lock()
        self.tmp = tempfile.mkdtemp(prefix=f"verif-{prop}-")
        self.dict = os.path.join(self.tmp, "dict")
        self.nd = mine_dictionary(self.dict)
        self.extra = {}

    @property
    def thorough(self): return self.tier == "thorough"

    def log(self, *a):
        print(*a, flush=True)

    def violation(self, key, msg, version, case, flavor, src, extra=None, log=""):
        with self.lock:
            k = match_known(self.prop, key, self.known)
            if k:
                self.known_hit.setdefault(k[0], k[1])
                return
            self.violations.append(dict(property=self.prop, key=key, msg=msg, version=version, case=case, flavor=flavor, src=src, log=log[-6000:], **(extra or {})))

    def absorb(self, out_file, rc, log, flavor, version, src, label, expect_end=True, extra=None):
        """Reads the record a harness process left and merges it."""
        end = None
        if os.path.exists(out_file):
            for l in open(out_file, errors="replace"):
                l = l.strip()
                if not l: continue
                try: r = json.loads(l)
                except ValueError: continue
                if r["type"] == "violation":
                    self.violation(r.get("key", ""), r["msg"], r.get("version", version), r.get("case", ""), flavor, src, extra, log if r.get("crash") else "")
                elif r["type"] == "end":
                    if end is None or not r.get("crash"): end = r
        if end is None or (rc not in (0, 77) and not (end and end.get("crash"))):
            if rc in (-9, 137, 124) or rc is None:
                raise CheckError(f"{label}: killed (rc {rc}); no verdict\n" + log[-2000:])
            if rc == 5:
                raise CheckError(f"{label}: the harness could not run\n" + log[-2000:])
            if rc == 76 or "LeakSanitizer" in log:
                self.violation("", "memory leak reported by LeakSanitizer", version, "", flavor, src, extra, log)
            else:
                self.violation("", f"process ended abnormally (status {rc}) in {label}", version, "", flavor, src, extra, log)
        with self.lock:
            if end:
                self.evaluations += end.get("evaluations", 0)
                self.distinct += end.get("distinct", 0)
                for k, v in end.get("events", {}).items(): self.events[k] = self.events.get(k, 0) + v
                if len(self.samples) < 40:
                    self.samples += [f"{label}: {s}" for s in end.get("samples", [])[-6:]]
            self.passes.append(dict(pass_=label, evaluations=(end or {}).get("evaluations", 0), distinct=(end or {}).get("distinct", 0), status=rc))
        return end

    def run_jobs(self, jobs):
        """jobs: callables run on a pool of all cores."""
        with cf.ThreadPoolExecutor(CORES) as ex:
            fs = [ex.submit(j) for j in jobs]
            err = None
            for f in cf.as_completed(fs):
                try: f.result()
                except CheckError as e: err = err or e
            if err and not self.violations: raise err

    def proc(self, cmd, label, env=None, timeout=RUN_TIMEOUT, mem=6 << 30):
        e = dict(ENV); e.update(env or {})
        import resource
        def lim():
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_FSIZE, (4 << 30, 4 << 30))
            if mem: resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=timeout, preexec_fn=lim, errors="replace", text=True)
            return r.returncode, r.stdout
        except subprocess.TimeoutExpired as x:
            return None, f"timeout after {timeout} s\n" + ((x.stdout or b"").decode("utf-8", "replace") if isinstance(x.stdout, bytes) else (x.stdout or ""))

    def harness_jobs(self, src, flavor, versions, shards, extra="", args=(), label="", link_extra="", std="c++17", prefix=()):
        """Job list: build once per version, then `shards` processes each."""
        jobs = []
        for v in versions:
            for i in range(shards):
                def job(v=v, i=i):
                    exe = build_harness(src, flavor, v, extra, std=std, link_extra=link_extra)
                    out = os.path.join(self.tmp, f"{os.path.basename(src)}-{flavor}-{v}-{i}-{abs(hash(label+extra+str(args)))}.out")
                    lab = f"{label or src} {flavor} u{v} {i}/{shards}"
                    rc, log = self.proc(list(prefix) + [exe, "--shard", str(i), "--shards", str(shards), "--seed", str(self.seed), "--tier", self.tier,
                                         "--version", str(v), "--dict", self.dict, "--out", out] + list(args), lab, mem=None if "asan" in flavor or flavor == "tsan" else 24 << 30)
                    self.absorb(out, rc, log, flavor, v, src, lab, extra=dict(cflags=extra, std=std))
                jobs.append(job)
        return jobs

    def fuzz_jobs(self, src, version, workers, runs, max_len=256, cov=False, extra="", seeds=None):
        jobs = []
        for i in range(workers):
            def job(i=i):
                exe = build_harness(src, "fuzz", version, extra, cov=cov)
                d = os.path.join(self.tmp, f"fuzz-{i}"); os.makedirs(d, exist_ok=True)
                for j, s in enumerate(seeds or default_seeds()):
                    open(os.path.join(d, f"s{j}"), "wb").write(s)
                out = os.path.join(self.tmp, f"fuzz-{src}-{i}.out")
                lab = f"{src} fuzz u{version} {i}/{workers}"
                rc, log = self.proc([exe, f"-runs={runs}", f"-seed={self.seed * 100 + i + 1}", f"-max_len={max_len}", "-use_value_profile=1" if i % 2 else "-use_value_profile=0",
                                     f"-dict={self.dict}.fuzz", f"-artifact_prefix={d}/art-", "-rss_limit_mb=6000", "-timeout=300", "-print_final_stats=1", "-len_control=20", "-reload=0", d], lab,
                                    env=dict(VM_version=str(version), VM_out=out, VM_tier=self.tier, VM_dict=self.dict), mem=None)
                self.absorb(out, rc, log, "fuzz", version, src, lab, extra=dict(cflags=extra, cov=cov))
                m = re.findall(r"cov: (\d+) ft: (\d+)", log)
                if m:
                    with self.lock:
                        self.extra["fuzz_edges"] = max(self.extra.get("fuzz_edges", 0), int(m[-1][0]))
                        self.extra["fuzz_features"] = max(self.extra.get("fuzz_features", 0), int(m[-1][1]))
            jobs.append(job)
        return jobs

    def finish(self, level, rule, assumptions, min_evals=1):
        if self.evaluations < min_evals and not self.violations:
            raise CheckError(f"only {self.evaluations} evaluations were observed: no verdict")
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        cov = dict(evaluations=self.evaluations, distinct_nontrivial=self.distinct, rule=rule, samples=self.samples[:40] or ["(none)"],
                   events=dict(sorted(self.events.items())), processes=len(self.passes),
                   passes=summarise(self.passes), dictionary=dict(numbers=self.nd[0], strings=self.nd[1], new_numbers=self.nd[2], new_strings=self.nd[3]), **self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov, assumptions=assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations), known_findings=sorted(self.known_hit))
        with open(os.path.join(HERE, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        for k, what in sorted(self.known_hit.items()):
            self.log(f"KNOWN-FINDING: property={self.prop} {what} [{k}]")
        shutil.rmtree(self.tmp, ignore_errors=True)
        if self.violations:
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            for n, v in enumerate(self.violations[:10]):
                p = os.path.join(HERE, "replays", f"{self.prop}-{n}.json")
                json.dump(v, open(p, "w"), indent=1)
                self.log(f"  {v['msg']}  [Unicode {v['version']}, {v['flavor']}] case {v['case'][:300]}")
                if v.get("log"): self.log("    " + v["log"][-1500:].replace("\n", "\n    "))
                self.log(f"VIOLATION property={self.prop} replay={p}")
            return 1
        self.log(f"{self.prop}: held on {self.evaluations} evaluations ({self.distinct} distinct), {len(self.passes)} processes, {time.time()-self.t0:.1f} s")
        return 0

def summarise(passes):
    r = {}
    for p in passes:
        k = re.sub(r" \d+/\d+$", "", p["pass_"])
        x = r.setdefault(k, dict(processes=0, evaluations=0, distinct=0))
        x["processes"] += 1; x["evaluations"] += p["evaluations"]; x["distinct"] += p["distinct"]
    return r

def default_seeds():
    r = []
    texts = ["", "a", "Hello", "I\u0130\u0131i", "\u00e9\u20ac\U0001F600", " \t\u00a0x\u3000 ", "a,b,,c", "\u0378\ue000\U0010FFFF", "x" * 40]
    for k in range(8):
        for t in texts:
            r.append(bytes([k]) + t.encode("utf-8"))
            r.append(bytes([k]) + t.encode("utf-16-le"))
            r.append(bytes([k]) + t.encode("utf-32-le"))
        for b in (b"\xed\xa0\x80\xed\xb0\x80", b"\xf8\x88\x80\x80\x80", b"\xfc\x84\x80\x80\x80\x80", b"ab\xf0\x9f\x98", b"\xc0\x80", b"\xff", b"\x00\xd8\x00\xdc", b"\x80\x8a\xff\x81"):
            r.append(bytes([k]) + b)
    return r
