"""P20: runs the real mkUnicodeTestData on generated files and failing files."""
import os, re, glob, random, subprocess, resource, signal, stat, threading
import vlib
from vlib import REPO, BUILD, HARN, CheckError, sh

def build_tool(flavor):
    f = vlib.FLAVORS[flavor]
    lib = vlib.build_lib(flavor, 16)
    src = sorted(glob.glob(os.path.join(REPO, "mkUnicodeTestData", "*.cxx")))
    if not src: raise CheckError("no source of mkUnicodeTestData")
    d = os.path.join(BUILD, "tool"); os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, f"mkUnicodeTestData-{flavor}")
    with vlib._lock(exe):
        r = sh([f["cxx"], "-std=c++11"] + f["har"].split() + f["link"].split() + ["-I", os.path.join(REPO, "interface"), "-I", os.path.join(REPO, "mkUnicodeTestData")] + src + [lib, "-o", exe])
    if r.returncode: raise CheckError("building mkUnicodeTestData failed:\n" + r.stdout[-3000:])
    return exe

def build_shim():
    d = os.path.join(BUILD, "tool"); os.makedirs(d, exist_ok=True)
    so = os.path.join(d, "faultio.so")
    r = sh(["gcc", "-O1", "-shared", "-fPIC", "-w", os.path.join(HARN, "faultio.c"), "-ldl", "-o", so])
    if r.returncode: raise CheckError("building the I/O shim failed:\n" + r.stdout[-2000:])
    return so

NOBODY = 65534
def run_tool(exe, args, cwd, env=None, fsize=256 << 20, nobody=False, ignore_xfsz=False, asan=False):
    """Returns (status, output); status negative for signals, None when it used up its processor time or never ended."""
    def pre():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_CPU, (60, 62))
        resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
        if ignore_xfsz: signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        if nobody: os.setgroups([]); os.setgid(NOBODY); os.setuid(NOBODY)
    e = dict(vlib.ENV); e.update(env or {})
    try:
        r = subprocess.run([exe] + args, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=600, preexec_fn=pre)
    except subprocess.TimeoutExpired:
        raise CheckError("mkUnicodeTestData waited for ten minutes without using the processor: no verdict")
    if r.returncode in (-signal.SIGXCPU, -signal.SIGKILL): return None, r.stdout
    return r.returncode, r.stdout

# ------------------------------------------------------------------ generated Unicode data
CATS = "Lu Ll Lt Lm Lo Mn Mc Me Nd Nl No Pc Pd Ps Pe Pi Pf Po Sm Sc Sk So Zs Zl Zp Cc Cf Cs Co Cn".split() + ["", "X"]
BIDI = "L R AL EN ES ET AN CS NSM BN B S WS ON LRE LRO RLE RLO PDF LRI RLI FSI PDI".split()
WORDS = "LATIN CAPITAL LETTER GREEK SMALL WITH DOT ABOVE CJK COMPATIBILITY IDEOGRAPH ARABIC SIGN HIGH SURROGATES PRIVATE USE MUSICAL SYMBOL X".split()
FRESH_N, FRESH_S = [], []       # numbers and strings of the current sources that oracle/literals.txt does not list (they steer, they decide nothing)
NEAR = ["<Privat>", "<private use>", "<PRIVATE USE-0041>", "Privet", "Priva te", "rivate", "Surrogat", "<surrogate>", "SURROGATE", "Surro", "urrogate", "Sur rogate", "P", "S", "First>", "Last>", "<", ">", "<>", "Use", "Non", "High", "Low", "Plane 15", "CJK UNIFIED IDEOGRAPH-4E00", "0041", "control", "#", "Cs", "Co"]
WITHIN = ["Private", "Surrogate", "A Private B", "PrivateX", "XSurrogate", "Surrogates", "<Private>", "Low Surrogate Private", "P Private", "PriPrivate", "SurrSurrogate", "Private Use" * 30, "X" * 3000 + "Private"]
def gen_line(r, cp):
    kind = r.random()
    f0 = f"{cp:04X}" if r.random() < .95 else r.choice([f"{cp:06X}", f"{cp:04x}", f"{cp:08X}"])
    if kind < .06: name = r.choice(["<Private Use, First>", "<Private Use, Last>", "<Plane 15 Private Use, First>", "<Plane 16 Private Use, Last>"])
    elif kind < .12: name = r.choice(["<Non Private Use High Surrogate, First>", "<Private Use High Surrogate, Last>", "<Low Surrogate, First>", "<Low Surrogate, Last>", "<Non Private Use High Surrogate, Last>"])
    elif kind < .2: name = r.choice(["<control>", "<CJK Ideograph, First>", "<CJK Ideograph, Last>", "<Hangul Syllable, First>"])
    elif kind < .24: name = ""
    elif kind < .28: name = r.choice(NEAR)
    elif kind < .31: name = r.choice(WITHIN)
    elif kind < .40 and FRESH_S: name = r.choice(["", "<", "A "]) + r.choice(FRESH_S) + r.choice(["", ">", " B"])
    else: name = " ".join(r.choice(WORDS) for _ in range(r.randint(1, 6)))
    skip = "Surrogate" in name or "Private" in name
    rest = [r.choice(CATS), str(r.choice([0, 0, 0, 230, 220])), r.choice(BIDI), r.choice(["", "<compat> 0020 0308", "0041 030A"]), "", r.choice(["", "5"]), r.choice(["", "1/4"]), r.choice("NY"),
            r.choice(["", "PRIVATE USE ONE", "NEL", "a Private matter", "Surrogate of nothing"] if r.random() < .2 else [""]), "", r.choice(["", "0061"]), "", r.choice(["", "0041"])]
    if r.random() < .1: rest = rest[:r.randint(0, len(rest))]
    if r.random() < .05: rest += [r.choice(["", "x", "Private", "Surrogate", "0041", "#", "//"]) for _ in range(r.randint(1, 40))]
    if FRESH_S and r.random() < .05: rest.append(r.choice(FRESH_S))
    if FRESH_S and rest and r.random() < .2: rest[r.randrange(len(rest))] = r.choice(FRESH_S)
    if FRESH_N and rest and r.random() < .1: n = r.choice(FRESH_N); rest[r.randrange(len(rest))] = r.choice([str(n), f"{n:04X}"])
    line = ";".join([f0, name] + rest)
    while len(line) <= 11: line += ";X"
    return line, (None if skip else int(f0, 16))

def gen_file(r, n, start=None):
    lines, want, cp = [], [], r.randint(0, 0x300)
    for _ in range(n):
        cp = cp + r.choice([1, 1, 1, 2, 5, 100, 3000]) if r.random() < .97 else r.randint(0, 0x10FFFF)
        if r.random() < .02: cp = want[-1] if want and r.random() < .5 else r.choice([0, 1, 0x7f, 0x80, 0xff, 0x100, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1ffff, 0x20000, 0xfffff, 0x100000, 0x10ffff] + FRESH_N)
        cp %= 0x110000
        l, w = gen_line(r, cp); lines.append(l)
        if w is not None: want.append(w)
    return lines, want

def parse_output(text):
    """The code points of the array, or None if it is not one."""
    t = re.sub(r"//[^\n]*|/\*.*?\*/", " ", text, flags=re.S).strip()
    m = re.fullmatch(r"[\w\s]*char32_t\s+validUnicodeCodePoints\s*\[\s*\]\s*=\s*\{([^{}]*)\}\s*;", t)
    if not m: return None
    items = [x.strip() for x in m.group(1).split(",")]
    if items and items[-1] == "": items.pop()
    if not items or not all(re.fullmatch(r"0[xX][0-9A-Fa-f]+[uU]?", x) for x in items): return None
    v = [int(x.rstrip("uU"), 16) for x in items]
    return v[:-1] if v[-1] == 0xFFFFFFFF else None

class Tool:
    def __init__(self, c):
        self.c, self.plain, self.asan, self.shim = c, build_tool("plain"), build_tool("asan"), build_shim()
        self.n = 0; self.lock = threading.Lock(); self.hashes = set()
        self.root = os.path.join(c.tmp, "tool"); os.makedirs(self.root); os.chmod(c.tmp, 0o755); os.chmod(self.root, 0o755)
        self.drop = os.geteuid() == 0
        if self.drop:
            try:
                p = subprocess.run(["true"], preexec_fn=lambda: (os.setgroups([]), os.setgid(NOBODY), os.setuid(NOBODY)))
                self.drop = p.returncode == 0
            except Exception:
                self.drop = False
        # a copy the unprivileged user can reach
        self.pub = os.path.join(self.root, "bin"); os.makedirs(self.pub); os.chmod(self.pub, 0o755)
        for n, p in (("plain", self.plain), ("asan", self.asan)):
            q = os.path.join(self.pub, n); open(q, "wb").write(open(p, "rb").read()); os.chmod(q, 0o755)
        q = os.path.join(self.pub, "faultio.so"); open(q, "wb").write(open(self.shim, "rb").read()); os.chmod(q, 0o755)

    def scratch(self):
        with self.lock: self.n += 1; d = os.path.join(self.root, f"d{self.n}")
        os.makedirs(d); os.chmod(d, 0o777); return d

    def note(self, event, data=b""):
        c = self.c
        with c.lock:
            c.evaluations += 1; c.events[event] = c.events.get(event, 0) + 1
            h = hash((event, data))
            if h not in self.hashes: self.hashes.add(h); c.distinct += 1
            if c.events[event] in (1, 8, 64) and len(c.samples) < 60: c.samples.append(f"{event}: {data[:120]!r}")

    def bad(self, msg, data, log="", flavor="plain"):
        self.c.violation("", msg, 16, data[:4000].decode("latin-1"), flavor, "mkUnicodeTestData", log=log)

    def good(self, data, want, event, flavor="plain", env=None, prefill=True, fifo=False, compile_=False, mark=None, paths=None):
        """A run that must succeed with exactly these code points."""
        d = self.scratch(); i, o = os.path.join(d, "in.txt"), os.path.join(d, "out.hxx")
        if paths: os.makedirs(os.path.join(d, "x")); os.chmod(os.path.join(d, "x"), 0o777); i, o = (os.path.join(d, p) for p in paths)
        try:
            if fifo:
                os.mkfifo(i, 0o666); os.chmod(i, 0o666)
                def feed():
                    try:
                        with open(i, "wb", buffering=0) as f:
                            for k in range(0, len(data), 777): f.write(data[k:k + 777])
                    except OSError: pass
                t = threading.Thread(target=feed, daemon=True); t.start()
            else: open(i, "wb").write(data)
            if prefill: open(o, "wb").write(b"0x1234, stale " * 4000); os.chmod(o, 0o666)
            e = dict(env or {})
            if "FAULT_KIND" in e: e.update(LD_PRELOAD=os.path.join(self.pub, "faultio.so"), FAULT_MARK=os.path.join(d, "mark"))
            if e.get("FAULT_PATH") == "in": e["FAULT_PATH"] = i
            if e.get("FAULT_PATH") == "out": e["FAULT_PATH"] = o
            rc, log = run_tool(os.path.join(self.pub, flavor), list(paths) if paths else [i, o], d, env=e, nobody=self.drop)
            self.note(event, data)
            if rc is None: return self.bad(f"{event}: never ended", data, log, flavor)
            if rc != 0: return self.bad(f"{event}: status {rc} for good data", data, log, flavor)
            if not fifo and open(i, "rb").read() != data: return self.bad(f"{event}: changed its input", data)
            text = open(o, "rb").read().decode("latin-1")
            got = parse_output(text)
            if got is None: return self.bad(f"{event}: output is not an array closed by 0xFFFFFFFF: ...{text[-100:]!r}", data, log, flavor)
            if got != want:
                k = next((k for k in range(min(len(got), len(want))) if got[k] != want[k]), min(len(got), len(want)))
                return self.bad(f"{event}: {len(got)} code points instead of {len(want)}, first difference at {k}: {got[k:k+3]} instead of {want[k:k+3]}", data, log, flavor)
            if compile_:
                t = os.path.join(d, "t.cxx")
                open(t, "w").write(f'#include "out.hxx"\nstatic_assert(sizeof(validUnicodeCodePoints) / sizeof(char32_t) == {len(want) + 1}, "");\n')
                r = sh(["g++", "-std=c++11", "-fsyntax-only", "-I", d, t])
                if r.returncode: return self.bad(f"{event}: the array does not compile", data, r.stdout)
                self.note("array compiled", data)
        finally:
            vlib.shutil.rmtree(d, ignore_errors=True)

    def fails(self, event, setup, flavor="plain", data=b"", env=None, fsize=256 << 20, need_mark=False, nobody=True, want=None):
        """A run that must end with a non-zero status. setup(dir) -> arguments"""
        d = self.scratch()
        try:
            args = setup(d)
            e = dict(env or {})
            if "FAULT_KIND" in e: e.update(LD_PRELOAD=os.path.join(self.pub, "faultio.so"), FAULT_MARK=os.path.join(d, "mark"), FAULT_PATH=os.path.join(d, e["FAULT_PATH"]))
            rc, log = run_tool(os.path.join(self.pub, flavor), args, d, env=e, fsize=fsize, nobody=self.drop and nobody, ignore_xfsz=fsize < 1 << 20)
            injected = os.path.exists(os.path.join(d, "mark"))
            if need_mark and not injected:
                self.note(event + " (not reached)", data); return False
            if rc == 0 and want is not None and parse_output(open(args[1], "rb").read().decode("latin-1")) == want:
                self.note(event + " (not reached)", data); return False
            self.note(event, data)
            if rc is None: self.bad(f"{event}: never ended", data, log, flavor)
            elif rc == 0: self.bad(f"{event}: status 0", data, log, flavor)
            elif rc < 0 and rc not in (-signal.SIGXFSZ, -signal.SIGABRT): self.bad(f"{event}: died of signal {-rc}", data, log, flavor)
            elif rc == 77: self.bad(f"{event}: sanitizer report", data, log, flavor)
            return True
        finally:
            subprocess.run(["chmod", "-R", "u+rwx", d], stderr=subprocess.DEVNULL)
            vlib.shutil.rmtree(d, ignore_errors=True)

def real_file(path):
    lines = open(path, "rb").read().decode("utf-8").split("\n")
    want = []
    for l in lines:
        l = l.rstrip("\r")
        if not l: continue
        f = l.split(";")
        if "Surrogate" in f[1] or "Private" in f[1]: continue
        want.append(int(f[0], 16))
    return want

def put(d, name, data, mode=0o666):
    p = os.path.join(d, name); open(p, "wb").write(data); os.chmod(p, mode); return p

def ok_lines(): return "\n".join(f"{0x41 + k:04X};LATIN LETTER {k};Lu;0;L;;;;;N;;;;;" for k in range(12)).encode() + b"\n"

def run(c):
    t = Tool(c); r = random.Random(c.seed * 1000003); jobs = []
    del FRESH_N[:], FRESH_S[:]
    for l in open(c.dict):
        if l.startswith("N "): FRESH_N.append(int(l[2:]))
        if l.startswith("S "):
            x = bytes.fromhex(l[2:]).decode("latin-1")
            if len(x) < 100 and not set(x) & set(";\n\r\0") and x.encode("ascii", "replace").decode() == x: FRESH_S.append(x)
    def add(f, *a, **k): jobs.append(lambda: f(*a, **k))
    # the shipped files
    for v in vlib.VERSIONS:
        p = os.path.join(REPO, "source", f"bits{v}", "UnicodeData.txt")
        if os.path.exists(p):
            data = open(p, "rb").read(); w = real_file(p)
            add(t.good, data, w, "shipped data file", compile_=v in (7, 16)); add(t.good, data.rstrip(b"\n"), w, "shipped data file without final line end")
    # every small number of lines, with every kind of ending
    ends = [("\n", "\n"), ("\n", ""), ("\r\n", "\r\n"), ("\n", "\n\n"), ("\n", "\n\n\n\n"), ("\r\n", "")]
    for n in range(1, 130 if c.thorough else 48):
        for sep, last in ends:
            lines, want = gen_file(random.Random(r.random()), n)
            data = (sep.join(lines) + last).encode()
            add(t.good, data, want, f"small file, line end {sep!r}, at the end {last!r}", prefill=n % 2 == 0, compile_=n in (1, 10, 11))
            if n <= 24: add(t.good, data, want, "small file under ASan+UBSan", flavor="asan", prefill=n % 2 == 1)
    # nothing but skipped entries, skipped at the ends, counts around multiples of ten
    pv = "E000;<Private Use, First>;Co;0;L;;;;;N;;;;;"; sg = "D800;<Non Private Use High Surrogate, First>;Cs;0;L;;;;;N;;;;;"
    nm = lambda k: f"{0x41 + k:04X};LATIN LETTER {k};Lu;0;L;;;;;N;;;;;"
    for k in (0, 1, 9, 10, 11, 19, 20, 21, 100):
        base = [nm(i) for i in range(k)]
        for pre in ([], [pv], [sg, sg]):
            for post in ([], [pv], [sg], [pv, pv, sg]):
                ls = pre + base + post
                if ls:
                    for e in ("\n", ""):
                        add(t.good, ("\n".join(ls) + e).encode(), [0x41 + i for i in range(k)], "skipped entries at the ends")
    # random files
    for i in range(4000 if c.thorough else 350):
        lines, want = gen_file(random.Random(r.random()), r.choice([r.randint(1, 200), r.randint(1, 60), r.randint(200, 3000)]))
        sep, last = r.choice(ends)
        add(t.good, (sep.join(lines) + last).encode(), want, "random file", flavor="asan" if i % 5 == 4 else "plain", fifo=i % 11 == 10)
    # very many entries; numbers of entries and lengths of lines around what the sources mention
    for n in [70000, 140000] + ([300000] if c.thorough else []):
        lines, want = gen_file(random.Random(r.random()), n)
        add(t.good, ("\n".join(lines) + "\n").encode(), want, "very many entries")
    for n in sorted(set(k + d for k in FRESH_N for d in (-1, 0, 1, 2) if 0 < k + d < 200000))[:60]:
        lines, want = gen_file(random.Random(r.random()), n)
        add(t.good, ("\n".join(lines) + "\n").encode(), want, "as many entries as a number in the sources")
    for n in sorted(set(list(range(11, 40)) + [a + b for a in (64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 1048576) for b in (-1, 0, 1)] + [k + d for k in FRESH_N[:60] for d in (-1, 0, 1) if 11 < k + d < 4000000])):
        body = []
        for k in range(3):
            l = f"{0x2000 + k:04X};" + "N;" * (n % 2) ; l += ("M" * (n - len(l) - 1) + ";") if n > len(l) else ""
            body.append(l[:n] if ";" in l[:n] else l)
        add(t.good, ("\n".join(body) + "\n").encode(), [0x2000 + k for k in range(3)], "lines of every length", flavor="asan" if n % 3 == 0 else "plain")
    for nm1 in NEAR + FRESH_S:
        add(t.good, f"0041;{nm1};Lu;0;L;;\n0042;B {nm1};Lu;0;L\n0043;LETTER C;Lu\n".encode(), [k for k, b in ((0x41, nm1), (0x42, "B " + nm1), (0x43, "")) if "Private" not in b and "Surrogate" not in b], "names close to those that are skipped")
    for nm1 in WITHIN:
        add(t.good, f"0041;{nm1};Lu;0;L;;\n0043;LETTER C;Lu\n0044;X{nm1};Co\n".encode(), [0x43], "names that are skipped")
    # paths, given relative to the current directory
    for i, o in (("in", "out"), ("in file.txt", "out put.hxx"), ("./in", "./out"), ("in;x", "out,y"), ("\u00e9.txt", "\u00fc.h"), ("i" * 200, "o" * 200), ("a", "b"), ("in.txt", "-out"), ("-h", "o.hxx"), ("x/../in", "x/out")):
        add(t.good, ok_lines(), [0x41 + k for k in range(12)], "unusual paths", paths=(i, o))
    # long lines, odd bytes in the fields that do not matter
    for i in range(40):
        q = random.Random(r.random())
        f = [f"{0x100 + k:04X};{'N' * q.choice([1, 4000, 70000])};" + "".join(chr(q.choice([1, 9, 32, 0x7f, 0xe9, 0xff])) for _ in range(20)) for k in range(q.randint(1, 25))]
        add(t.good, ("\n".join(f) + q.choice(["", "\n"])).encode("latin-1"), [0x100 + k for k in range(len(f))], "long lines and odd bytes", flavor=q.choice(["plain", "asan"]))
    # I/O that comes in small pieces or is interrupted
    for i in range(200 if c.thorough else 24):
        lines, want = gen_file(random.Random(r.random()), r.randint(1, 120)); data = ("\n".join(lines) + "\n").encode()
        add(t.good, data, want, "input in pieces of 5 bytes", env=dict(FAULT_KIND="short", FAULT_PATH="in"))
        add(t.good, data, want, "output in pieces of 3 bytes", env=dict(FAULT_KIND="short", FAULT_PATH="out"), prefill=True)
    # ---- what must not look like success
    ok = "\n".join(nm(i) for i in range(30)).encode() + b"\n"
    big = "\n".join(nm(i) for i in range(6000)).encode() + b"\n"
    for fl in ("plain", "asan"):
        add(t.fails, "no arguments", lambda d: [], fl)
        add(t.fails, "one argument", lambda d: [put(d, "in", ok)], fl)
        add(t.fails, "three arguments", lambda d: [put(d, "in", ok), os.path.join(d, "out"), "more"], fl)
        add(t.fails, "four arguments", lambda d: [put(d, "in", ok), os.path.join(d, "out"), "more", "x"], fl)
        add(t.fails, "input missing", lambda d: [os.path.join(d, "none"), os.path.join(d, "out")], fl)
        add(t.fails, "input in a missing directory", lambda d: [os.path.join(d, "no", "ne"), os.path.join(d, "out")], fl)
        add(t.fails, "input path below a file", lambda d: [os.path.join(put(d, "in", ok), "x"), os.path.join(d, "out")], fl)
        add(t.fails, "empty input name", lambda d: ["", os.path.join(d, "out")], fl)
        add(t.fails, "input is a directory", lambda d: [d, os.path.join(d, "out")], fl)
        add(t.fails, "dangling link as input", lambda d: (os.symlink("nowhere", os.path.join(d, "l")), [os.path.join(d, "l"), os.path.join(d, "out")])[1], fl)
        add(t.fails, "output in a missing directory", lambda d: [put(d, "in", ok), os.path.join(d, "no", "out")], fl)
        add(t.fails, "output is a directory", lambda d: [put(d, "in", ok), d], fl)
        add(t.fails, "empty output name", lambda d: [put(d, "in", ok), ""], fl)
        if os.path.exists("/dev/full"):
            add(t.fails, "output device full, small", lambda d: [put(d, "in", ok), "/dev/full"], fl, data=ok)
            add(t.fails, "output device full, large", lambda d: [put(d, "in", big), "/dev/full"], fl, data=big[:99])
            add(t.fails, "output device full, one entry", lambda d: [put(d, "in", nm(1).encode()), "/dev/full"], fl)
            add(t.fails, "output device full, nothing listed", lambda d: [put(d, "in", pv.encode() + b"\n"), "/dev/full"], fl)
        if t.drop:
            add(t.fails, "input not readable", lambda d: [put(d, "in", ok, 0), os.path.join(d, "out")], fl)
            add(t.fails, "output not writable", lambda d: [put(d, "in", ok), put(d, "out", b"x", 0o444)], fl)
            add(t.fails, "output directory not writable", lambda d: (os.chmod(d, 0o555), [put(d, "in", ok), os.path.join(d, "out")])[1], fl)
    # a line that is not delimited, at every position
    junk = [b"not delimited data", b"0041,LATIN CAPITAL LETTER A", b"x" * 11, b"\xff" * 40, b"<html><body>404</body>", b"0041 LATIN CAPITAL LETTER A", b"#" * 5000]
    for k in range(0, 24):
        for j, g in enumerate(junk):
            if (k + j) % 2 and not c.thorough: continue
            for e in (b"\n", b""):
                ls = [nm(i).encode() for i in range(23)]; ls.insert(k, g); data = b"\n".join(ls) + e
                add(t.fails, "a line is not delimited", lambda d, data=data: [put(d, "in", data), os.path.join(d, "out")], "asan" if k % 3 == 0 else "plain", data=data)
    pvs = [pv, sg, "DFFF;<Low Surrogate, Last>;Cs", "F8FF;<Private Use, Last>;Co"]
    for i in range(600 if c.thorough else 90):
        q = random.Random(r.random())
        ls = [q.choice(pvs) if q.random() < .4 else nm(k) for k in range(q.choice([0, 1, 2, 5, 9, 10, 11, 30, 200, 3000]))]
        g = q.choice(["Private Use Area", "Surrogate pairs", "E000 Private Use", "<Private Use, First>", "D800,<Surrogate, First>,Cs", "0041:LATIN LETTER", "# a comment line", "not delimited data", "0" * 11, " " * 11, "\t" * 12, "0041\tLATIN\tLu"] + ["x" + x * 11 for x in FRESH_S if x])
        for _ in range(q.choice([1, 1, 1, 2, 12])): ls.insert(q.choice([0, 1, len(ls), q.randint(0, len(ls))]), g)
        sep = q.choice(["\n", "\n", "\r\n"]); data = (sep.join(ls) + q.choice(["", sep])).encode("latin-1")
        add(t.fails, "a line is not delimited, among skipped entries", lambda d, data=data: [put(d, "in", data), os.path.join(d, "out")], "asan" if i % 4 == 0 else "plain", data=data)
    # the disk is full after any number of bytes
    sizes = sorted(set(list(range(0, 420, 7)) + [r.randint(0, 400) for _ in range(20)]))
    for s in sizes:
        add(t.fails, "file size limit", lambda d: [put(d, "in", ok), os.path.join(d, "out")], fsize=s, data=str(s).encode(), nobody=False, want=[0x41 + i for i in range(30)])
    for s in [4096, 8191, 8192, 8193, 30000, 50000, 60000]:
        add(t.fails, "file size limit, large output", lambda d: [put(d, "in", big), os.path.join(d, "out")], fsize=s, data=str(s).encode(), nobody=False, want=[0x41 + i for i in range(6000)])
    # the k-th read or write fails
    for kind, path in (("read-eio", "in"), ("write-enospc", "out"), ("write-eio", "out"), ("close-eio", "out")):
        for name, dat in (("small", ok), ("large", big)):
            for k in range(1, 2 if kind == "close-eio" else 40 if c.thorough else 14):
                add(t.fails, f"injected {kind}, {name} file", lambda d, dat=dat: [put(d, "in", dat), os.path.join(d, "out")], env=dict(FAULT_KIND=kind, FAULT_PATH=path, FAULT_AT=str(k)), need_mark=True, data=str(k).encode())
    c.run_jobs(jobs)
