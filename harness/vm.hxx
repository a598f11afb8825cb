// vm.hxx -- the monitor runtime shared by all harnesses: cases, event counters, verdicts,
// crash/hang capture, shards, the PRNG and the command line.
//
// A harness defines
//     const char* const kProperty;
//     void checkCase(const vm::Case&);        // run one case, report with vm::fail
//     void workload();                        // generate cases, feed them to vm::run
//     vm::Case fuzzCase(const uint8_t*, size_t);   // bytes -> case, for coverage-guided runs
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/mman.h>

extern const char* const kProperty;

namespace vm {

struct Case
{
    std::string             op;
    std::string             b;
    std::u16string          w;
    std::u32string          d;
    std::string             s;      // second string (language, blanks, ...)
    std::vector<long long>  n;
};

// ---------------------------------------------------------------- PRNG (splitmix64 / xorshift*)
struct Rng
{
    uint64_t x;
    explicit Rng(uint64_t seed) : x(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next()
    {
        uint64_t z = (x += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
};

// ---------------------------------------------------------------- run-wide state
struct Violation { std::string key, msg, text; };

struct State
{
    unsigned shard = 0, shards = 1;
    uint64_t seed = 1;
    bool thorough = false;
    int version = 16;                       // the Unicode version the library was built for
    std::string dictFile, outFile;
    uint64_t evaluations = 0, turn = 0, limit = 0;
    std::map<std::string, uint64_t> events;
    std::vector<std::string> samples;
    std::map<std::string, Violation> viol;  // by key (or by text when there is no key)
    uint64_t violCount = 0;
    const Case* cur = nullptr;
    std::vector<uint64_t> table;            // open addressing set of case hashes
    uint64_t distinct = 0, enumerated = 0, cases = 0;
    int outFd = -1;
    volatile uint64_t heart = 0;
    int patience = 18;                      // ticks of 5 s of processor time without a heartbeat that count as a hang
};
inline State& st() { static State s; return s; }

inline uint64_t hashMix(uint64_t h, const void* p, size_t n)
{
    const unsigned char* c = static_cast<const unsigned char*>(p);
    while (n >= 8)
    {
        uint64_t v; memcpy(&v, c, 8);
        h = (h ^ v) * 0x9E3779B97F4A7C15ull; h ^= h >> 29;
        c += 8; n -= 8;
    }
    while (n--) { h = (h ^ *c++) * 0x100000001B3ull; }
    return h ^ (h >> 31);
}

inline uint64_t hashCase(const Case& c)
{
    uint64_t h = 0xcbf29ce484222325ull;
    h = hashMix(h, c.op.data(), c.op.size());
    h = hashMix(h + 1, c.b.data(), c.b.size());
    h = hashMix(h + 2, c.w.data(), c.w.size() * 2);
    h = hashMix(h + 3, c.d.data(), c.d.size() * 4);
    h = hashMix(h + 4, c.s.data(), c.s.size());
    h = hashMix(h + 5, c.n.data(), c.n.size() * sizeof(long long));
    return h ? h : 1;
}

inline void noteDistinct(uint64_t h)
{
    auto& s = st();
    if (s.table.empty()) s.table.assign(size_t(1) << 22, 0);
    size_t mask = s.table.size() - 1;
    if (s.distinct > s.table.size() * 3 / 4) return;    // full: the count is a lower bound
    size_t i = h & mask;
    while (s.table[i] && s.table[i] != h) i = (i + 1) & mask;
    if (!s.table[i]) { s.table[i] = h; ++s.distinct; }
}

inline void ev(const char* name, uint64_t n = 1) { st().events[name] += n; }
// a counter that avoids the map lookup in hot loops
struct Counter { uint64_t* p; explicit Counter(const char* n) : p(&st().events[n]) {} void operator++() { ++*p; } };
#define VM_COUNT(name) do { static vm::Counter c_(name); ++c_; } while (0)

template <class C> std::string hex(const C* p, size_t n)
{
    std::string r; char t[16];
    for (size_t i = 0; i < n; ++i)
    {
        snprintf(t, sizeof t, "%0*x", int(sizeof(C) * 2), unsigned(typename std::make_unsigned<typename std::conditional<sizeof(C)==1,char,typename std::conditional<sizeof(C)==2,short,int>::type>::type>::type(p[i])));
        r += t;
    }
    return r;
}
template <class S> std::string hex(const S& s) { return hex(s.data(), s.size()); }
template <class C> std::basic_string<C> unhex(const std::string& h)
{
    std::basic_string<C> r; size_t k = sizeof(C) * 2;
    for (size_t i = 0; i + k <= h.size(); i += k) r.push_back(C(strtoul(h.substr(i, k).c_str(), nullptr, 16)));
    return r;
}

inline std::string text(const Case& c)
{
    std::string r = c.op + "|" + hex(c.b) + "|" + hex(c.w) + "|" + hex(c.d) + "|" + hex(c.s) + "|";
    for (size_t i = 0; i < c.n.size(); ++i) r += (i ? "," : "") + std::to_string(c.n[i]);
    return r;
}
inline Case parse(const std::string& t)
{
    std::vector<std::string> f(1);
    for (char ch : t) { if (ch == '|') f.emplace_back(); else if (ch != '\n') f.back().push_back(ch); }
    f.resize(6);
    Case c; c.op = f[0]; c.b = unhex<char>(f[1]); c.w = unhex<char16_t>(f[2]); c.d = unhex<char32_t>(f[3]); c.s = unhex<char>(f[4]);
    std::string cur;
    for (char ch : f[5] + ",") { if (ch == ',') { if (!cur.empty()) c.n.push_back(atoll(cur.c_str())); cur.clear(); } else cur.push_back(ch); }
    return c;
}

inline std::string jsonEsc(const std::string& s)
{
    std::string r; char t[8];
    for (unsigned char ch : s)
    {
        if (ch == '"' || ch == '\\') { r += '\\'; r += char(ch); }
        else if (ch < 32 || ch > 126) { snprintf(t, sizeof t, "\\u%04x", ch); r += t; }
        else r += char(ch);
    }
    return r;
}

inline void emit(const std::string& line)
{
    int fd = st().outFd < 0 ? 1 : st().outFd;
    std::string l = line + "\n";
    size_t done = 0;
    while (done < l.size())
    {
        ssize_t k = write(fd, l.data() + done, l.size() - done);
        if (k <= 0) break;
        done += size_t(k);
    }
}

// a violation: key names a call site/shape that a known-findings entry may list ("" = none)
inline void failKey(const std::string& key, const Case& c, const std::string& msg)
{
    auto& s = st();
    ++s.violCount;
    std::string t = text(c);
    std::string id = key.empty() ? std::string("!") + t : key;
    if (s.viol.count(id) || s.viol.size() >= 5000) return;
    size_t unk = 0;
    for (auto& v : s.viol) if (v.second.key.empty()) ++unk;
    if (key.empty() && unk >= 20) return;
    s.viol[id] = Violation{ key, msg, t };
    emit("{\"type\":\"violation\",\"key\":\"" + jsonEsc(key) + "\",\"msg\":\"" + jsonEsc(msg.substr(0, 2000)) +
         "\",\"version\":" + std::to_string(s.version) + ",\"case\":\"" + jsonEsc(t) + "\"}");
}
inline void fail(const Case& c, const std::string& msg) { failKey("", c, msg); }

// ---------------------------------------------------------------- crash and hang capture
inline void dumpCurrent(const char* what)
{
    static volatile sig_atomic_t once = 0;
    if (once) return;
    once = 1;
    auto& s = st();
    // the heap may be unusable: build the line with write() only
    int fd = s.outFd < 0 ? 1 : s.outFd;
    auto put = [fd](const char* p, size_t n) { while (n) { ssize_t k = write(fd, p, n); if (k <= 0) return; p += k; n -= size_t(k); } };
    auto puts_ = [&](const char* p) { put(p, strlen(p)); };
    auto num = [&](long long v) { char t[32]; int n = snprintf(t, sizeof t, "%lld", v); put(t, size_t(n)); };
    auto hexOut = [&](const void* p, size_t count, size_t size)
    {
        const unsigned char* q = static_cast<const unsigned char*>(p);
        static const char dig[] = "0123456789abcdef";
        for (size_t i = 0; i < count; ++i)
            for (size_t j = size; j-- > 0;) { char t[2] = { dig[q[i * size + j] >> 4], dig[q[i * size + j] & 15] }; put(t, 2); }
    };
    puts_("\n{\"type\":\"violation\",\"key\":\"\",\"crash\":true,\"msg\":\"");
    puts_(what);
    puts_("\",\"version\":");
    num(s.version);
    puts_(",\"case\":\"");
    if (const Case* c = s.cur)
    {
        put(c->op.data(), c->op.size()); puts_("|");
        hexOut(c->b.data(), c->b.size(), 1); puts_("|");
        hexOut(c->w.data(), c->w.size(), 2); puts_("|");
        hexOut(c->d.data(), c->d.size(), 4); puts_("|");
        hexOut(c->s.data(), c->s.size(), 1); puts_("|");
        for (size_t i = 0; i < c->n.size(); ++i) { if (i) puts_(","); num(c->n[i]); }
    }
    puts_("\"}\n");
    puts_("{\"type\":\"end\",\"crash\":true,\"evaluations\":");
    num(static_cast<long long>(s.evaluations));
    puts_("}\n");
}
inline void onSignal(int sig)
{
    const char* n = sig == SIGSEGV ? "invalid memory access (SIGSEGV)" : sig == SIGBUS ? "invalid memory access (SIGBUS)" :
                    sig == SIGABRT ? "abort" : sig == SIGFPE ? "arithmetic trap" : sig == SIGILL ? "illegal instruction/trap" : "fatal signal";
    dumpCurrent(n);
    _exit(77);
}
inline void onProf(int)
{
    // CPU-time watchdog: 90 s of CPU inside one case is a hang
    static uint64_t last = 0; static int stuck = 0;
    auto& s = st();
    if (!s.cur) { stuck = 0; return; }
    if (s.heart == last) { if (++stuck >= s.patience) { dumpCurrent("no end: one case used 90 s of processor time or more"); _exit(77); } }
    else { stuck = 0; last = s.heart; }
}

} // namespace vm

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

void checkCase(const vm::Case&);
void workload();
vm::Case fuzzCase(const uint8_t*, size_t);

namespace vm {

inline void installWatchdog()
{
    struct sigaction sp; memset(&sp, 0, sizeof sp);
    sp.sa_handler = onProf; sp.sa_flags = SA_RESTART | SA_ONSTACK;
    sigaction(SIGPROF, &sp, nullptr);
    struct itimerval it; it.it_interval.tv_sec = 5; it.it_interval.tv_usec = 0; it.it_value = it.it_interval;
    setitimer(ITIMER_PROF, &it, nullptr);
}

inline void installHandlers()
{
#if !defined(VM_NO_HANDLERS)
    if (__sanitizer_set_death_callback)
    {
        __sanitizer_set_death_callback([] { dumpCurrent("sanitizer report or fatal signal (see the log)"); });
    }
    else
    {
        static char alt[1 << 16];
        stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0;
        sigaltstack(&ss, nullptr);
        struct sigaction sa; memset(&sa, 0, sizeof sa);
        sa.sa_handler = onSignal; sa.sa_flags = SA_ONSTACK;
        for (int sig : { SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL }) sigaction(sig, &sa, nullptr);
    }
    installWatchdog();
#endif
}

// run one case now, whatever the shard
inline void runHere(const Case& c)
{
    auto& s = st();
    ++s.evaluations; ++s.heart;
    noteDistinct(hashCase(c));
    uint64_t e = ++s.cases;
    if ((e & (e - 1)) == 0 && s.samples.size() < 24)
    {
        std::string t = text(c);
        if (t.size() < 400) s.samples.push_back(t);
    }
    s.cur = &c;
    try { checkCase(c); }
    catch (const std::exception& x) { fail(c, std::string("exception escaped: ") + x.what()); }
    catch (...) { fail(c, "unknown exception escaped"); }
    s.cur = nullptr;
}
// a case checked in a tight loop without a case object; enumerated ones are distinct by construction
inline void fastEval(bool enumerated) { auto& s = st(); ++s.evaluations; ++s.heart; if (enumerated) ++s.enumerated; }
// run one case if it is this shard's turn
inline bool myTurn() { auto& s = st(); return s.turn++ % s.shards == s.shard; }
inline void run(const Case& c) { if (myTurn()) runHere(c); }

inline void finish()
{
    auto& s = st();
    std::string r = "{\"type\":\"end\",\"evaluations\":" + std::to_string(s.evaluations) + ",\"distinct\":" + std::to_string(s.distinct + s.enumerated) +
        ",\"violations\":" + std::to_string(s.violCount) + ",\"version\":" + std::to_string(s.version) + ",\"events\":{";
    bool first = true;
    for (auto& e : s.events) { if (!e.second) continue; r += std::string(first ? "" : ",") + "\"" + jsonEsc(e.first) + "\":" + std::to_string(e.second); first = false; }
    r += "},\"samples\":[";
    for (size_t i = 0; i < s.samples.size(); ++i) r += std::string(i ? "," : "") + "\"" + jsonEsc(s.samples[i]) + "\"";
    r += "]}";
    emit(r);
}

// --key value pairs; also used with the environment under libFuzzer
inline void configure(const std::map<std::string, std::string>& a)
{
    auto& s = st();
    auto get = [&](const char* k, const char* def) { auto i = a.find(k); return i == a.end() ? std::string(def) : i->second; };
    s.shard = unsigned(atoi(get("shard", "0").c_str()));
    s.shards = unsigned(atoi(get("shards", "1").c_str()));
    s.seed = strtoull(get("seed", "1").c_str(), nullptr, 10);
    s.thorough = get("tier", "quick") == "thorough";
    s.version = atoi(get("version", "16").c_str());
    s.limit = strtoull(get("limit", "0").c_str(), nullptr, 10);
    s.dictFile = get("dict", "");
    s.outFile = get("out", "");
    if (!s.outFile.empty()) s.outFd = open(s.outFile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
}

} // namespace vm

#if defined(VM_FUZZ)
extern "C" int LLVMFuzzerInitialize(int*, char***)
{
    std::map<std::string, std::string> a;
    for (const char* k : { "version", "out", "tier", "seed", "dict" })
        if (const char* v = getenv((std::string("VM_") + k).c_str())) a[k] = v;
    vm::configure(a);
    atexit([] { vm::finish(); });
    return 0;
}
static void vmFuzzDeath() { vm::dumpCurrent("sanitizer report or fatal signal (see the log)"); }
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* p, size_t n)
{
    static bool armed = false;
    static vm::Case c;
    if (!armed)
    {
        // after libFuzzer's own set-up: the current case is what we want to keep
        armed = true;
        if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(vmFuzzDeath);
        vm::installWatchdog();
    }
    c = fuzzCase(p, n);
    vm::runHere(c);
    for (auto& v : vm::st().viol) if (v.second.key.empty()) { vm::finish(); _exit(77); }
    return 0;
}
#elif !defined(VM_OWN_MAIN)
int main(int argc, char* argv[])
{
    std::map<std::string, std::string> a;
    for (int i = 1; i + 1 < argc; i += 2) a[argv[i] + 2] = argv[i + 1];
    vm::configure(a);
    vm::installHandlers();
    if (a.count("replay"))
    {
        vm::Case c = vm::parse(a["replay"]);
        vm::runHere(c);
    }
    else if (a.count("replay-file"))
    {
        std::string t; char buf[65536];
        FILE* f = fopen(a["replay-file"].c_str(), "r");
        if (!f) return 5;
        size_t k; while ((k = fread(buf, 1, sizeof buf, f)) > 0) t.append(buf, k);
        fclose(f);
        vm::Case c = vm::parse(t);
        vm::runHere(c);
    }
    else workload();
    vm::finish();
    return 0;
}
#endif
