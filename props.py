"""What each check runs. Counts are bounded by numbers of cases, never by time."""
from vlib import VERSIONS

ASSUME = ["the reference model (harness/model.hxx) and the oracle tables (oracle/) state the property correctly",
          "text contains no NUL code unit except as terminator, unless said otherwise",
          "behaviour listed under Don't care in DESIGN.md is not judged"]
PROPS = {}

def prop(id, rule, assumptions=(), **kw):
    def deco(f):
        PROPS[id] = dict(run=f, rule=rule, assumptions=ASSUME + list(assumptions), **kw)
        return f
    return deco

def standard(c, src, fuzz_runs=60000, fuzz_workers=4, cov=False, versions=(16,), shards=8, max_len=256, more=()):
    """Workload on the optimised build (what users run), then coverage-guided runs under ASan+UBSan."""
    jobs = c.harness_jobs(src, "plain", list(versions), shards)
    if fuzz_runs:
        jobs += c.fuzz_jobs(src, 16, fuzz_workers if not c.thorough else 8, fuzz_runs * (40 if c.thorough else 1), cov=cov, max_len=max_len)
    c.run_jobs(jobs + list(more))

OTHERS = [v for v in VERSIONS if v != 16]

@prop("P01", "a case is one text (UTF-8, UTF-16/UCS-2 or UCS-4) checked in pointer and string form for all six target ranges and eight invalid ones; "
      "non-trivial: distinct by text (enumerated ones by construction, others by hash, counted per process)")
def p01(c): standard(c, "p01.cxx")

@prop("P02", "a case is one text in one source encoding; every checker/converter pair is run on it; distinct by text")
def p02(c): standard(c, "p02.cxx")

@prop("P03", "a case is one text in one source encoding, converted to every target in pointer and string form and compared with the model; distinct by text")
def p03(c): standard(c, "p03.cxx")

@prop("P04", "a case is one valid text and one chain of conversions; every intermediate string is checked; distinct by text and chain")
def p04(c): standard(c, "p04.cxx")

@prop("P05", "a case is one NUL-terminated byte sequence stepped from every position; distinct by bytes")
def p05(c): standard(c, "p05.cxx")

@prop("P06", "a case is one bounded text placed so that its last (or first) unit touches an inaccessible page, under several surroundings; distinct by text and bound")
def p06(c): standard(c, "p06.cxx", fuzz_runs=20000, more=c.harness_jobs("p06.cxx", "asan", [16], 4))

@prop("P07", "a case is one text counted in every form; distinct by text")
def p07(c): standard(c, "p07.cxx")

@prop("P08", "a case is one predicate spelling with one text or code point, in all encodings and widths; distinct by both")
def p08(c): standard(c, "p08.cxx", more=c.harness_jobs("p08.cxx", "plain", OTHERS, 2))

@prop("P09", "a case is one code point (or 32-bit value) of one Unicode version: all of them are swept; distinct by construction")
def p09(c): c.run_jobs(c.harness_jobs("p09.cxx", "plain", VERSIONS, 8))

@prop("P10", "a case is one code point (or 32-bit value) of one Unicode version, alone and in texts: all of them are swept; distinct by construction")
def p10(c): c.run_jobs(c.harness_jobs("p10.cxx", "plain", VERSIONS, 8))

@prop("P11", "a case is one language string with one text; distinct by both")
def p11(c): standard(c, "p11.cxx", more=c.harness_jobs("p11.cxx", "plain", OTHERS, 2))

@prop("P12", "a case is one text or piece list with one delimiter, in four character types; distinct by content")
def p12(c): standard(c, "p12.cxx", cov=True)

@prop("P13", "a case is one text with one set of blanks; distinct by content")
def p13(c): standard(c, "p13.cxx", cov=True)

@prop("P14", "a case is one byte string with one source encoding; distinct by content")
def p14(c): standard(c, "p14.cxx")

@prop("P15", "a case is one wide string or one text to be made wide; distinct by content")
def p15(c): standard(c, "p15.cxx", cov=True)

@prop("P16", "a case is one wide, TCHAR or other text in one of three build configurations; distinct by content and configuration")
def p16(c):
    jobs = []
    for cfg in (0, 1, 2):
        jobs += c.harness_jobs("p16.cxx", "short", [16], 8, extra=f"-DP16_CFG={cfg}")
        jobs += c.harness_jobs("p16.cxx", "shortasan", [16], 4, extra=f"-DP16_CFG={cfg}", args=["--limit", "4000"])
    c.run_jobs(jobs)

@prop("P17", "a case is one tuple of hostile arguments given to all of the about 110 public operations under instrumentation; distinct by tuple")
def p17(c):
    jobs = c.harness_jobs("p17.cxx", "asan", [16], 8) + c.harness_jobs("p17.cxx", "asan", OTHERS, 2) + c.harness_jobs("p17.cxx", "plain", [16], 2)
    jobs += c.harness_jobs("p17.cxx", "debug", [16], 8, args=["--limit", "400" if c.thorough else "60"], label="p17 memcheck",
              prefix=["valgrind", "-q", "--error-exitcode=78", "--leak-check=full", "--undef-value-errors=yes", "--exit-on-first-error=yes", "--num-callers=12"])
    jobs += c.fuzz_jobs("p17.cxx", 16, 8 if c.thorough else 4, 800000 if c.thorough else 25000, cov=True)
    c.run_jobs(jobs)

# ---------------------------------------------------------------------------------------------- P18
def make_locales(d):
    """Locales with other ideas about letters, if the machine can compile them."""
    import subprocess, os
    out = ["C.utf8"]
    for n, i, f in (("tr_TR.UTF-8", "tr_TR", "UTF-8"), ("tr_TR.ISO-8859-9", "tr_TR", "ISO-8859-9"), ("de_DE.ISO-8859-1", "de_DE", "ISO-8859-1")):
        try:
            subprocess.run(["localedef", "-i", i, "-f", f, os.path.join(d, n)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
        except Exception:
            pass
        if os.path.isdir(os.path.join(d, n)): out.append(n)
    return out

@prop("P18", "a case is one (argument tuple, operation) pair; its result is logged under every regime (order, address, alignment, locale, thread, phase of the process) and all logs must be equal; "
      "distinct: pairs of the canonical log, non-trivial: those logged by at least ten regimes", min_evals=100000)
def p18(c):
    import os, vlib
    src = "p18.cxx"
    locs = os.path.join(c.tmp, "loc"); os.makedirs(locs); locales = make_locales(locs)
    runs = []       # (version, regime label, flavor, n, env, cflags)
    n = 60000 if c.thorough else 9000
    for m in ("asc", "desc", "shuf", "same", "fresh", "ro", "rep", "threads", "hammer", "pre", "post", "tls"): runs.append((16, m, "plain", n, dict(P18_MODE=m), ""))
    for k in range(2, 6): runs.append((16, f"shuf{k}", "plain", n, dict(P18_MODE="shuf", P18_SALT=str(k * 17)), ""))
    for l in locales: runs.append((16, f"locale {l}", "plain", n, dict(P18_MODE="locale", P18_LOCALE=l, LOCPATH=locs, LANG=l, LC_ALL=l, LANGUAGE=l.split(".")[0]), ""))
    import re                                           # variables whose names a change brings in (and some well-known ones) in the environment
    names = {bytes.fromhex(l[2:].strip()).decode("latin-1") for l in open(c.dict) if l.startswith("S ")}
    names = {x for x in names if re.fullmatch(r"[A-Za-z_][A-Za-z0-9_]*", x) and not re.match(r"LD_|P18_|PATH$|ASAN|UBSAN|TSAN|LSAN|GLIBC|MALLOC", x)}
    for k, val in enumerate(("1", "tr", "0", "tr_TR.UTF-8")):
        runs.append((16, f"environment {val}", "plain", n // 3, dict({x: val for x in names | {"ANSAK_LANG", "ANSAK_STRING", "UNICODE", "LC_CTYPE", "LC_ALL", "LANG", "TZ", "CHARSET"}}, P18_MODE="asc"), ""))
    for t in (2, 3, 5, 16): runs.append((16, f"threads{t}", "plain", n // 3, dict(P18_MODE="threads", P18_THREADS=str(t), P18_SALT=str(t)), ""))
    for k in range(6 if c.thorough else 2):
        runs.append((16, f"threads yielding {k}", "trace", n // 6, dict(P18_MODE="threads", P18_SALT=str(k + 5)), "-DP18_YIELD"))
        runs.append((16, f"hammer yielding {k}", "trace", n // 30, dict(P18_MODE="hammer", P18_SALT=str(k + 5)), "-DP18_YIELD"))
        runs.append((16, f"threads tsan {k}", "tsan", n // 45, dict(P18_MODE="threads", P18_THREADS=str(3 + k), P18_SALT=str(k)), ""))
    for k in ("85", "255"): runs.append((16, f"memory filled {k}", "plain", n // 3, dict(P18_MODE="shuf", P18_SALT=k, MALLOC_PERTURB_=k), ""))
    for m in ("pre", "post", "tls", "shuf"): runs.append((16, f"{m} asan", "asan", n // 15, dict(P18_MODE=m), ""))
    for v in OTHERS:
        for m in ("asc", "shuf", "pre", "post", "same", "threads", "hammer"): runs.append((v, m, "plain", n // 9, dict(P18_MODE=m), ""))
        runs.append((v, "threads tsan", "tsan", 60, dict(P18_MODE="threads", P18_THREADS="3"), ""))
    logs, jobs = {}, []
    for i, (v, lab, flavor, k, env, cf) in enumerate(runs):
        def job(i=i, v=v, lab=lab, flavor=flavor, k=k, env=env, cf=cf):
            exe = vlib.build_harness(src, flavor, v, cf)
            out, log = os.path.join(c.tmp, f"p18-{i}.out"), os.path.join(c.tmp, f"p18-{i}.log")
            e = dict(env, P18_N=str(k - k % 3), P18_SEED=str(c.seed), P18_LOG=log, P18_OUT=out, P18_VERSION=str(v), P18_DICT=c.dict, P18_TIER=c.tier)
            label = f"p18 u{v} {flavor} {lab}"
            rc, text = c.proc([exe], label, env=e, mem=None)
            if flavor == "tsan" and "FATAL: ThreadSanitizer" in text:      # the tool could not start (address layout): try once without randomisation
                rc, text = c.proc(["setarch", "-R", exe], label, env=e, mem=None)
                if "FATAL: ThreadSanitizer" in text or "setarch:" in text:
                    with c.lock: c.events["ThreadSanitizer could not start"] = c.events.get("ThreadSanitizer could not start", 0) + 1
                    return
            c.absorb(out, rc, text, flavor, v, src, label, extra=dict(cflags=cf))
            if os.path.exists(log): logs[i] = open(log, "rb").read(); os.remove(log)
            if rc == 0 and i not in logs: raise vlib.CheckError(f"{label}: no log")
        jobs.append(job)
    c.run_jobs(jobs)
    compare_logs(c, src, runs, logs)

def compare_logs(c, src, runs, logs):
    import vlib, subprocess, os
    exe = vlib.build_harness(src, "plain", 16)
    ops = vlib.sh([exe, "--ops"]).stdout.strip().split("\n")
    regimes = 0; compared = 0
    for v in VERSIONS:
        ref = next((logs[i] for i, r in enumerate(runs) if r[0] == v and r[1] == "asc" and i in logs), None)
        if ref is None: continue
        if v == 16: c.distinct += len(ref) // 8
        for i, r in enumerate(runs):
            if r[0] != v or i not in logs: continue
            k = (r[3] - r[3] % 3) * len(ops) * 8
            l = logs[i]
            if k == 0 or len(l) == 0 or len(l) % k: raise vlib.CheckError(f"log of {r[1]} has the wrong size")
            for t in range(len(l) // k):
                regimes += 1; compared += k // 8
                part = l[t * k:(t + 1) * k]
                if part == ref[:k]: continue
                bad = [j for j in range(0, k, 8) if part[j:j + 8] != ref[j:j + 8]]
                seen = set()
                for j in bad:
                    case, op = divmod(j // 8, len(ops))
                    if op in seen: continue
                    seen.add(op)
                    d = subprocess.run([exe, "--dump", str(case)], stdout=subprocess.PIPE, text=True, env=dict(vlib.ENV, P18_SEED=str(c.seed), P18_DICT=c.dict)).stdout.strip()
                    c.violation("", f"{ops[op]}: another result in regime '{r[1]}' (log {t}) than when called in order, {len(bad)} differences", v, d, r[2], src, dict(cflags=r[5]))
                    if len(seen) >= 3: break
    for case in range(0, 30):
        d = subprocess.run([exe, "--dump", str(case * 37)], stdout=subprocess.PIPE, text=True, env=dict(vlib.ENV, P18_SEED=str(c.seed), P18_DICT=c.dict)).stdout.strip()
        c.samples.append(f"case {case * 37}: {d}"[:400])
    c.extra["regimes_compared"] = regimes; c.extra["results_compared"] = compared

# ---------------------------------------------------------------------------------------------- P19
@prop("P19", "a case is one argument tuple given to every operation; an evaluation is one call with one particular allocation failing (all of them in turn; of calls with more than 80 the first 40, "
      "the last 20 and 20 between), followed by the comparisons; distinct by tuple", level="fault_enumeration")
def p19(c):
    w = "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free"
    jobs = c.harness_jobs("p19.cxx", "plain", [16], 8, link_extra=w)
    jobs += c.harness_jobs("p19.cxx", "asan", [16], 4, link_extra=w, args=["--limit", "6000" if c.thorough else "400"])
    jobs += c.harness_jobs("p19.cxx", "plain", OTHERS, 1, link_extra=w, args=["--limit", "5000" if c.thorough else "400"])
    c.run_jobs(jobs)

# ---------------------------------------------------------------------------------------------- P20
@prop("P20", "a case is one run of the real tool on one data file or one failure; distinct by kind of run and file content or failing position", min_evals=500)
def p20(c):
    import toolcheck
    toolcheck.run(c)

# ---------------------------------------------------------------------------------------------- P21, P22
@prop("P21", "a case is one text (or one pair of predicate spellings) given to every form of every operation; distinct by content")
def p21(c): standard(c, "p21.cxx", cov=True)

@prop("P22", "a case is one (operation, shape of text, length) triple measured at the length and a quarter of it; distinct by triple")
def p22(c):
    w = "-Wl," + ",".join("--wrap=" + f for f in "memmove memcpy memset memchr memcmp strlen wcslen wmemmove wmemcpy wmemset wmemchr wmemcmp".split())
    c.run_jobs(c.harness_jobs("p22.cxx", "trace", [16], 8, link_extra=w, extra="-fno-builtin") + (c.harness_jobs("p22.cxx", "trace", [7], 8, link_extra=w, extra="-fno-builtin") if c.thorough else []))

# ---------------------------------------------------------------------------------------------- P23
# (compiler, standard, options, order of the headers, library): a program each. The first is what the others are compared with.
PROGRAMS = [
    ("g++", "c++17", "-O2", 0, "plain"),
    ("g++", "c++11", "-O0", 1, "O0"),
    ("g++", "c++14", "-O3 -funsigned-char", 2, "uchar"),
    ("g++", "c++20", "-Os -DNDEBUG", 3, "Os"),
    ("g++", "c++23", "-O1 -funsigned-char", 4, "O3"),
    ("clang++", "c++11", "-O2", 5, "plain"),
    ("clang++", "c++14", "-O0 -funsigned-char", 1, "clanguchar"),
    ("clang++", "c++17", "-O3 -DNDEBUG", 2, "clang"),
    ("clang++", "c++20", "-O1", 4, "uchar"),
    ("clang++", "c++23", "-O2", 3, "O0"),
    ("g++", "gnu++17", "-O2 -D_GLIBCXX_ASSERTIONS -D_DEBUG -DDEBUG", 5, "clanguchar"),
    ("g++", "c++11", "-O2 -fPIC -fvisibility=hidden -fwrapv -fno-strict-aliasing -ffunction-sections", 0, "clang"),
]
@prop("P23", "a case is one argument tuple (or 256 texts of one code point or two bytes); an evaluation is one call in one program; the hashes of all results are logged by every program and all "
      "logs must be equal; distinct: cases times programs", min_evals=100000)
def p23(c):
    import os, glob, shutil, vlib
    inc = os.path.join(c.tmp, "inc"); os.makedirs(os.path.join(inc, "ansak"))
    for h in glob.glob(os.path.join(vlib.REPO, "interface", "*hxx")): shutil.copy(h, os.path.join(inc, "ansak"))      # as the Makefile's install target does
    jobs, built, failed = [], {}, []
    def compile(cxx, std, opts, src, name, defs, syntax=False):
        def job():
            o = os.path.join(c.tmp, name + ".o")
            r = vlib.sh([cxx, "-std=" + std] + opts.split() + ["-w", "-I", inc, "-I", vlib.HARN] + defs + [os.path.join(vlib.HARN, src)] + (["-fsyntax-only"] if syntax else ["-c", "-o", o]))
            with c.lock:
                if r.returncode: failed.append((f"{cxx} -std={std} {opts} {src} {' '.join(defs)}", r.stdout[-2500:]))
                else: built[name] = o; c.evaluations += 1; c.events["files compiled"] = c.events.get("files compiled", 0) + 1
        jobs.append(job)
    driver = {}
    def dr():
        o = os.path.join(c.tmp, "driver.o")
        r = vlib.sh(["g++", "-std=c++17", "-O2", "-w", "-I", vlib.HARN, "-I", os.path.join(vlib.HERE, "oracle"), "-I", os.path.join(vlib.REPO, "interface"), "-c", os.path.join(vlib.HARN, "p23.cxx"), "-o", o])
        if r.returncode == 0: driver["o"] = o
        else: driver["log"] = r.stdout[-3000:]
    jobs.append(dr)
    for k, (cxx, std, opts, order, _) in enumerate(PROGRAMS):
        for t in "ab": compile(cxx, std, opts, "p23_ops.cxx", f"{t}{k}", [f"-DP23_ORDER={order if t == 'a' else (order + 3) % 6}", f"-DP23_NAME=p23_{t}"])
        for h in (1, 2, 3): compile(cxx, std, opts, "p23_alone.cxx", f"h{h}-{k}", [f"-DP23_HEADER={h}", f"-DP23_NAME=p23_alone_{h}"])
    for cxx in ("g++", "clang++"):
        for std in ("c++11", "c++14", "c++17", "c++20", "c++23", "gnu++11", "gnu++20"):
            for h in (1, 2, 3): compile(cxx, std, "-O0", "p23_alone.cxx", f"s{cxx}{std}{h}", [f"-DP23_HEADER={h}", "-DP23_NAME=f"], True)
    c.run_jobs(jobs)
    if not built: raise vlib.CheckError("nothing compiles:\n" + failed[0][1])
    for what, log in failed[:6]: c.violation("", "a program that includes the installed headers does not compile: " + what, 16, "", what.split()[0], "p23", log=log)
    if "o" not in driver:
        if c.violations: return
        raise vlib.CheckError("compiling p23.cxx failed:\n" + driver["log"])
    if failed: return
    n = 60000 if c.thorough else 6000
    versions = VERSIONS if c.thorough else [16, 11]
    exes, logs, jobs = {}, {}, []
    for v in versions:
        for k, (cxx, std, opts, order, flavor) in enumerate(PROGRAMS):
            if v != 16 and not c.thorough and k not in (0, 2, 6, 9): continue
            def job(v=v, k=k, flavor=flavor, cxx=cxx, std=std, opts=opts):
                j = (k + 1) % len(PROGRAMS)
                lib = vlib.build_lib(flavor, v)
                exe = os.path.join(c.tmp, f"p23-{v}-{k}")
                lab = f"p23 u{v} {cxx} {std} {opts}, library {flavor}"
                r = vlib.sh(["g++", built[f"a{k}"], built[f"b{j}"]] + [built[f"h{h}-{k}"] for h in (1, 2, 3)] + [driver["o"], lib, "-lpthread", "-o", exe])
                if r.returncode:
                    c.violation("", f"a program of several files that include the installed headers does not link: {lab}; second file {PROGRAMS[j][:3]}", v, "", flavor, "p23", log=r.stdout[-2500:])
                    return
                exes[v, k] = exe
                out, log = os.path.join(c.tmp, f"p23-{v}-{k}.out"), os.path.join(c.tmp, f"p23-{v}-{k}.log")
                rc, text = c.proc([exe], lab, env=dict(P23_N=str(n if v == 16 else n // 4), P23_SEED=str(c.seed), P23_LOG=log, P23_OUT=out, P23_VERSION=str(v), P23_DICT=c.dict, P23_TIER=c.tier if v == 16 else "quick"))
                c.absorb(out, rc, text, flavor, v, "p23", lab)
                if os.path.exists(log): logs[v, k] = open(log, "rb").read(); os.remove(log)
                if rc == 0 and (v, k) not in logs: raise vlib.CheckError(f"{lab}: no log")
            jobs.append(job)
    c.run_jobs(jobs)
    compared = 0
    for (v, k) in sorted(logs):
        ref = logs.get((v, 0))
        if ref is None or k == 0 and not exes: continue
        env = dict(P23_N=str(n if v == 16 else n // 4), P23_SEED=str(c.seed), P23_DICT=c.dict, P23_VERSION=str(v), P23_TIER=c.tier if v == 16 else "quick")
        rc, text = c.proc([exes[v, k], "--ops"], "ops", env=env); ops = text.strip().split("\n")
        rc, text = c.proc([exes[v, k], "--cases"], "cases", env=env); na, nb = (int(x) for x in text.split())
        l = logs[v, k]; na *= len(ops) * 8; nb *= len(ops) * 8
        if len(l) != na + nb or len(ref) != len(l): raise vlib.CheckError("a log has the wrong size")
        compared += len(l) // 8
        for table, part, want in (("first", l[:na], ref[:na]), ("second", l[na:], ref[:nb])):
            if part == want: continue
            bad = [q // 8 for q in range(0, len(part), 8) if part[q:q + 8] != want[q:q + 8]]
            seen = set()
            who = PROGRAMS[k] if table == "first" else PROGRAMS[(k + 1) % len(PROGRAMS)]
            for q in bad:
                case, op = divmod(q, len(ops))
                if op in seen: continue
                seen.add(op)
                rc, text = c.proc([exes[v, k], "--dump", str(case), "0"], "dump", env=env)
                c.violation("", f"{ops[op]}: the {table} file of the program ({' '.join(map(str, who[:3]))}, library {PROGRAMS[k][4]}) gets other results than {' '.join(map(str, PROGRAMS[0][:3]))}, {len(bad)} differences, first in case {case}",
                            v, text.strip(), PROGRAMS[k][4], "p23")
                if len(seen) >= 3: break
    v, k = min(exes) if exes else (None, None)
    for case in range(0, 30) if exes else ():
        rc, text = c.proc([exes[v, k], "--dump", str(case * 201), "0"], "dump", env=dict(P23_N=str(n), P23_SEED=str(c.seed), P23_DICT=c.dict))
        c.samples.append(f"case {case * 201}: {text.strip()}"[:400])
    c.extra["programs"] = len(logs); c.extra["results_compared"] = compared
