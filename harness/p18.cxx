// P18: operations are pure. One process runs a fixed list of (case, operation) pairs under one regime and writes the
// hash of every result to a log; the logs of all regimes are compared afterwards (check.py).
//   asc desc shuf      orders of the calls               same    texts always at the same addresses
//   fresh              every text elsewhere, misaligned  ro      all arguments in read-only pages
//   rep                every pair again and again        locale  under the locale named in P18_LOCALE
//   threads            several threads at once           hammer  threads fighting over two cases per operation
//   pre                before static initialisation of everything else
//   post tls           from destructors that run when the program or a thread ends (of objects younger than the first ordinary calls: what the
//                      operations may have set up for themselves, a constant kept in a static variable say, is still there)
#define VM_OWN_MAIN
#include "api.hxx"
#include <thread>
#include <atomic>
#include <locale>
#include <clocale>
#include <cerrno>
#include <memory>
#include <new>
using namespace ansak; using vm::Case; using gen::Rng;
const char* const kProperty = "P18";
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
#define P18_SANITIZED 1
#endif

// ---------------------------------------------------------------- injected delays (trace flavor): yield at random edges of the code under test
#ifdef P18_YIELD
#include <sched.h>
#define NOCOV __attribute__((no_sanitize_coverage))
static thread_local uint64_t yieldRng = 0;
static uint64_t yields = 0;
extern "C" NOCOV void __sanitizer_cov_trace_pc()
{
    if (!yieldRng) return;
    yieldRng ^= yieldRng << 13; yieldRng ^= yieldRng >> 7; yieldRng ^= yieldRng << 17;
    if ((yieldRng & 0xFF) == 0) { sched_yield(); __atomic_fetch_add(&yields, 1, __ATOMIC_RELAXED); }
}
#endif

// ---------------------------------------------------------------- an arena that can be made read-only
#ifndef P18_SANITIZED
static thread_local bool inArena = false;
static char* arena = nullptr; static size_t arenaUsed = 0; static const size_t arenaSize = size_t(64) << 20;
void* operator new(size_t n)
{
    if (inArena) { arenaUsed = (arenaUsed + 15) & ~size_t(15); char* p = arena + arenaUsed; arenaUsed += n; if (arenaUsed > arenaSize) abort(); return p; }
    void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (static_cast<char*>(p) >= arena && static_cast<char*>(p) < arena + arenaSize && arena) return; free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
#endif

// ---------------------------------------------------------------- the list of calls
static size_t N = 600; static uint64_t gSeed = 1; static char gMode_[64], gLog_[4096]; struct Str { char* p; void operator=(const std::string& s) { strcpy(p, s.c_str()); } bool operator==(const char* s) const { return !strcmp(p, s); } const char* c_str() const { return p; } };
#define gMode (Str{ gMode_ })
#define gLog (Str{ gLog_ })
static unsigned gThreads = 8; static uint64_t gSalt = 1;
static Case base(size_t i) { Rng r(gSeed * 7919 + i); return api::randCase(r, false, i % 16 == 0); }
// case i: every third one is new, the next two differ from it in one unit, or in the other arguments only
static Case makeCase(size_t i)
{
    Case c = base(i - i % 3); Rng r(gSeed * 104729 + i);
    if (i % 3 == 1)
    {
        auto twist = [&](auto& s) { if (!s.empty()) { size_t k = r.chance(1, 2) ? s.size() / 2 : r.below(s.size()); auto u = s[k]; s[k] = u == 'I' ? 'x' : r.chance(1, 2) ? 'I' : u == 'Q' ? ' ' : 'Q'; } };
        twist(c.b); twist(c.w); twist(c.d);
    }
    if (i % 3 == 2) { Case d = base(i + 1000000); c.n = d.n; c.s = d.s; }
    return c;
}
static uint64_t call(const api::Op& op, api::Args& a, const api::View& v)
{
    if (op.inPlace) a.victims();
    errno = 0;
    api::Sink r; op.f(v, r); return r.h;
}
static size_t nOps() { return api::ops().size(); }
static void loadInto(api::Args& a, size_t i) { api::load(a, makeCase(i)); }

struct Log { std::vector<uint64_t> v; Log() : v(N * nOps(), 0) {} uint64_t& at(size_t c, size_t o) { return v[c * nOps() + o]; } };
static void writeLog(const std::vector<const Log*>& ls)
{
    FILE* f = fopen(gLog.c_str(), "wb"); if (!f) _exit(5);
    for (auto* l : ls) if (fwrite(l->v.data(), 8, l->v.size(), f) != l->v.size()) _exit(5);
    if (fclose(f)) _exit(5);
}
static std::vector<std::pair<uint32_t, uint32_t>> allPairs(uint64_t salt)
{
    std::vector<std::pair<uint32_t, uint32_t>> p; for (uint32_t i = 0; i < N; ++i) for (uint32_t o = 0; o < nOps(); ++o) p.emplace_back(i, o);
    Rng r(salt); for (size_t k = p.size(); k > 1; --k) std::swap(p[k - 1], p[r.below(k)]);
    return p;
}
static void byCase(Log& l, bool desc)
{
    api::Args a;
    for (size_t k = 0; k < N; ++k)
    {
        size_t i = desc ? N - 1 - k : k;
        loadInto(a, i); auto v = a.view();
        for (size_t q = 0; q < nOps(); ++q) { size_t o = desc ? nOps() - 1 - q : q; l.at(i, o) = call(api::ops()[o], a, v); ++vm::st().evaluations; ++vm::st().heart; }
    }
}
static std::vector<std::unique_ptr<api::Args>>& prepared()
{
    static std::vector<std::unique_ptr<api::Args>> as;
    if (as.empty()) for (size_t i = 0; i < N; ++i) { as.emplace_back(new api::Args); loadInto(*as.back(), i); }
    return as;
}
static void threadsRun(unsigned T, std::vector<std::unique_ptr<Log>>& logs)
{
    // each thread has its own victims; every other argument is shared
    auto& as = prepared(); nOps();
    std::vector<std::vector<std::pair<uint32_t, uint32_t>>> plan;
    for (unsigned t = 0; t < T; ++t)
    {
        logs.emplace_back(new Log);
        if (t % 2) plan.push_back(allPairs(gSalt * 100 + t));
        else { plan.emplace_back(); for (uint32_t o = 0; o < nOps(); ++o) for (uint32_t i = 0; i < N; ++i) plan.back().emplace_back(i, o); }   // the same operation everywhere at the same time
    }
    std::atomic<unsigned> ready{0}; std::atomic<uint64_t> done{0};
    std::vector<std::thread> ts;
    for (unsigned t = 0; t < T; ++t) ts.emplace_back([&, t] {
#ifdef P18_YIELD
        yieldRng = gSalt * 1000 + t + 1;
#endif
        std::string vb; std::u16string vw; std::u32string vd; std::wstring vww;
        ready++; while (ready < T) {}
        for (auto& p : plan[t])
        {
            auto& a = *as[p.first]; auto& op = api::ops()[p.second];
            auto v = a.view();
            if (op.inPlace) { vb = a.vb; vw = a.vw; vd = a.vd; vww = a.vww; }
            v.vb = &vb; v.vw = &vw; v.vd = &vd; v.vww = &vww;
            api::Sink r; op.f(v, r); logs[t]->at(p.first, p.second) = r.h;
        }
        done += plan[t].size();
    });
    for (auto& t : ts) t.join();
    vm::st().evaluations += done;
}
static void hammer(unsigned T)
{
    auto& as = prepared();
    uint64_t its = vm::st().thorough ? 3000 : 400;
    std::atomic<uint64_t> bad{0}; std::atomic<size_t> badCase{0}, badOp{0};
    for (size_t o = 0; o < nOps(); ++o)
    {
        auto& op = api::ops()[o];
        for (int round = 0; round < 3; ++round)
        {
            Rng r(gSalt * 31 + o * 7 + round);
            size_t k = r.below(N / 3) * 3, pick[4] = { k, k + 1, k + 2 < N ? k + 2 : k, r.below(N) }; uint64_t want[4];
            for (int j = 0; j < 4; ++j) want[j] = call(op, *as[pick[j]], as[pick[j]]->view());
            for (int j = 0; j < 4; ++j) as[pick[j]]->victims();
            std::atomic<unsigned> ready{0}; std::vector<std::thread> ts;
            for (unsigned t = 0; t < T; ++t) ts.emplace_back([&, t] {
#ifdef P18_YIELD
                yieldRng = gSalt * 1000 + t + 1 + o;
#endif
                std::string vb; std::u16string vw; std::u32string vd; std::wstring vww;
                ready++; while (ready < T) {}
                uint64_t x = t * 77 + 1;
                for (uint64_t n = 0; n < its; ++n)
                {
                    x = x * 6364136223846793005ull + 1442695040888963407ull; int j = t < 2 ? int((t + n) & 1) : int(x >> 62);
                    auto& a = *as[pick[j]]; auto v = a.view();
                    if (op.inPlace) { vb = a.vb; vw = a.vw; vd = a.vd; vww = a.vww; }
                    v.vb = &vb; v.vw = &vw; v.vd = &vd; v.vww = &vww;
                    api::Sink s; op.f(v, s);
                    if (s.h != want[j] && !bad++) { badCase = pick[j]; badOp = o; }
                }
            });
            for (auto& t : ts) t.join();
            vm::st().evaluations += its * T; vm::ev("hammered calls", its * T);
        }
    }
    if (bad) vm::fail(makeCase(badCase), std::string("result differed under concurrent calls: ") + api::ops()[badOp].name);
}
// ordinary calls, so that whatever the operations set up lazily exists
static void warmUp() { api::Args a; for (size_t i = 0; i < N && i < 60; ++i) { loadInto(a, i); for (auto& op : api::ops()) { call(op, a, a.view()); ++vm::st().evaluations; } } }
struct Leaving { Log* l = nullptr; ~Leaving() { if (l) byCase(*l, true); } };
static void leaveWith(Log* l) { static thread_local Leaving leaving; leaving.l = l; }
static void doMode()
{
    auto& s = vm::st(); std::vector<std::unique_ptr<Log>> logs;
    if (gMode == "threads") { threadsRun(gThreads, logs); }
    else if (gMode == "tls")
    {
        for (int k = 0; k < 2; ++k) { logs.emplace_back(new Log); Log* l = logs.back().get(); std::thread([l] { warmUp(); leaveWith(l); }).join(); vm::ev("threads that call while they end"); }
    }
    else if (gMode == "hammer") { hammer(gThreads); byCase(*logs.emplace_back(new Log), false); }
    else
    {
        logs.emplace_back(new Log); Log& l = *logs[0];
        if (gMode == "asc") byCase(l, false);
        else if (gMode == "desc") byCase(l, true);
        else if (gMode == "pre" || gMode == "post") byCase(l, gMode == "post");
        else if (gMode == "shuf") { auto& as = prepared(); for (auto& p : allPairs(gSalt)) { l.at(p.first, p.second) = call(api::ops()[p.second], *as[p.first], as[p.first]->view()); ++s.evaluations; ++s.heart; } }
        else if (gMode == "same")
        {
            // one buffer for all texts: equal address and often equal length, other content
            static char sb[1 << 16], lb[1 << 16]; static char16_t sw[1 << 15]; static char32_t sd[1 << 15]; static wchar_t sww[1 << 15];
            static api::Args a; a.b.reserve(1 << 16); a.w.reserve(1 << 15); a.d.reserve(1 << 15); a.ww.reserve(1 << 15);
            for (size_t o = 0; o < nOps(); ++o)
                for (size_t i = 0; i < N; ++i)
                {
                    loadInto(a, i); auto v = a.view();
                    auto fill = [](auto* d, size_t cap, const auto& t, auto& p) { if (t.size() + 1 < cap) { for (size_t k = 0; k <= t.size(); ++k) d[k] = t.c_str()[k]; p = d; } };
                    fill(sb, 1 << 16, a.b, v.pb); fill(sw, 1 << 15, a.w, v.pw); fill(sd, 1 << 15, a.d, v.pd); fill(sww, 1 << 15, a.ww, v.pww);
                    v.lb = v.pb; v.lw = v.pw; v.ld = v.pd;
                    if (v.lang) { for (size_t k = 0; k <= a.lang.size(); ++k) lb[k] = a.lang.c_str()[k]; v.lang = lb; }
                    l.at(i, o) = call(api::ops()[o], a, v); ++s.evaluations; ++s.heart;
                }
        }
        else if (gMode == "fresh")
        {
            for (size_t i = 0; i < N; ++i)
            {
                std::unique_ptr<api::Args> a(new api::Args); loadInto(*a, i);
                for (size_t o = 0; o < nOps(); ++o)
                {
                    size_t sh = (i + o) % 64;
                    auto v = a->view();
                    auto place = [&](const auto& t, auto& p) { using C = typename std::decay<decltype(t)>::type::value_type; size_t k = (t.size() + 1) * sizeof(C); char* m = static_cast<char*>(malloc(k + 128)); size_t off = (64 - reinterpret_cast<uintptr_t>(m) % 64) + sh / sizeof(C) * sizeof(C); memset(m, 0xEE, off); memcpy(m + off, t.c_str(), k); p = reinterpret_cast<const C*>(m + off); return m; };
                    char* m1 = place(a->b, v.pb); char* m2 = place(a->w, v.pw); char* m3 = place(a->d, v.pd); char* m4 = place(a->ww, v.pww);
                    v.lb = v.pb; v.lw = v.pw; v.ld = v.pd;
                    l.at(i, o) = call(api::ops()[o], *a, v); ++s.evaluations; ++s.heart;
                    free(m1); free(m2); free(m3); free(m4);
                }
            }
            vm::ev("alignments", 64);
        }
#ifndef P18_SANITIZED
        else if (gMode == "ro")
        {
            arena = static_cast<char*>(mmap(nullptr, arenaSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)); if (arena == MAP_FAILED) _exit(5);
            api::Args vict;
            for (size_t i = 0; i < N; ++i)
            {
                Case c = makeCase(i);
                arenaUsed = 0; inArena = true; api::Args* a = new api::Args; api::load(*a, c); inArena = false;
                auto v = a->view();
                vict.b = a->b; vict.w = a->w; vict.d = a->d; vict.ww = a->ww;
                v.vb = &vict.vb; v.vw = &vict.vw; v.vd = &vict.vd; v.vww = &vict.vww;
                mprotect(arena, (arenaUsed + 4096) & ~size_t(4095), PROT_READ);
                s.cur = &c;
                for (size_t o = 0; o < nOps(); ++o) { l.at(i, o) = call(api::ops()[o], vict, v); ++s.evaluations; ++s.heart; VM_COUNT("calls on read-only arguments"); }
                s.cur = nullptr;
                mprotect(arena, (arenaUsed + 4096) & ~size_t(4095), PROT_READ | PROT_WRITE);
            }
        }
#endif
        else if (gMode == "rep")
        {
            auto& as = prepared();
            // every pair three times in shuffled order, results equal within the process too
            for (int k = 0; k < 3; ++k) for (auto& p : allPairs(gSalt + k)) { uint64_t h = call(api::ops()[p.second], *as[p.first], as[p.first]->view()); auto& x = l.at(p.first, p.second); if (k && x != h) vm::fail(makeCase(p.first), std::string("result changed on repetition: ") + api::ops()[p.second].name); x = h; ++s.evaluations; ++s.heart; }
            // one short case very many times: a counter that runs over, a table that fills up
            size_t many = s.thorough ? 20000000 : 1100000;
            for (size_t o = 0; o < nOps(); ++o)
            {
                size_t i = 0; for (size_t q = 1; q < N && q < 90; ++q) if (as[q]->b.size() && as[q]->w.size() && as[q]->d.size() && as[q]->b.size() + as[q]->d.size() < as[i]->b.size() + as[i]->d.size()) i = q;
                auto& a = *as[i]; uint64_t want = l.at(i, o);
                for (size_t k = 0; k < many; ++k) { if (call(api::ops()[o], a, a.view()) != want) { vm::fail(makeCase(i), "result changed on call " + std::to_string(k) + ": " + api::ops()[o].name); break; } ++s.evaluations; ++s.heart; }
                vm::ev("repeated calls of one pair", many);
            }
        }
        else if (gMode == "locale")
        {
            const char* n = getenv("P18_LOCALE"); auto& as = prepared();
            bool ok = setlocale(LC_ALL, n ? n : "C.utf8") != nullptr; if (ok) vm::ev("C locale set");
            try { std::locale::global(std::locale(n ? n : "C.utf8")); vm::ev("C++ locale set"); } catch (...) {}
            (void)prepared;
            for (auto& p : allPairs(gSalt)) { auto& a = *as[p.first]; if (api::ops()[p.second].inPlace) a.victims(); errno = 34; api::Sink r; api::ops()[p.second].f(a.view(), r); l.at(p.first, p.second) = r.h; ++s.evaluations; ++s.heart; }
        }
        else _exit(5);
    }
    std::vector<const Log*> ls; for (auto& l : logs) ls.push_back(l.get());
    vm::ev((std::string("results logged: ") + gMode_).c_str(), ls.size() * N * nOps());
    writeLog(ls);
#ifdef P18_YIELD
    vm::ev("yields injected", yields);
#endif
}

// the first object of the program to come to life
struct Early
{
    Early()
    {
        auto e = [](const char* k, const char* d) { const char* v = getenv(k); return std::string(v ? v : d); };
        gMode = e("P18_MODE", "asc"); gLog = e("P18_LOG", "/dev/null"); N = size_t(atoi(e("P18_N", "600").c_str())); gSeed = strtoull(e("P18_SEED", "1").c_str(), nullptr, 10);
        gThreads = unsigned(atoi(e("P18_THREADS", "8").c_str())); gSalt = strtoull(e("P18_SALT", "1").c_str(), nullptr, 10);
        vm::configure({ { "version", e("P18_VERSION", "16") }, { "out", e("P18_OUT", "") }, { "dict", e("P18_DICT", "") }, { "tier", e("P18_TIER", "quick") } });
        vm::st(); nOps(); gen::dict(); gen::shapes8(); gen::shapes16(); gen::edge32(); gen::edgeUnicode(); gen::edgeBeyond(); gen::alpha8(); makeCase(0); { Rng r(1); for (int i = 0; i < 50; ++i) api::randCase(r, false); }
        if (gMode == "pre") { vm::installHandlers(); doMode(); vm::ev("ran before static initialisation"); vm::finish(); _exit(0); }
    }
};
static Early early __attribute__((init_priority(101)));

struct Late { ~Late() { doMode(); vm::ev("ran while the program ended"); vm::finish(); } };

void checkCase(const Case& c)
{
    api::Args a, b; api::load(a, c); api::load(b, c);
    for (auto& op : api::ops()) { uint64_t x = call(op, a, a.view()); if (x != call(op, b, b.view())) vm::fail(c, std::string("two calls differ: ") + op.name); }
}
int main(int argc, char** argv)
{
    vm::installHandlers();
    if (argc == 3 && !strcmp(argv[1], "--dump")) { printf("%s\n", vm::text(makeCase(size_t(atoll(argv[2])))).c_str()); return 0; }
    if (argc == 2 && !strcmp(argv[1], "--ops")) { for (auto& o : api::ops()) printf("%s\n", o.name); return 0; }
    if (argc >= 3) { std::string t; for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], "--replay-file")) { FILE* f = fopen(argv[i + 1], "r"); if (!f) return 5; int k; while ((k = fgetc(f)) != EOF) t.push_back(char(k)); fclose(f); } Case c = vm::parse(t); vm::runHere(c); vm::finish(); return 0; }
    if (gMode == "post") { warmUp(); prepared(); static thread_local Late late; (void)late; return 0; }
    doMode(); vm::finish(); return 0;
}
