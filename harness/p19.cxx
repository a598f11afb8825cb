// P19: running out of memory. Every allocation of every operation fails in turn; monitors watch the exception, live
// memory, the arguments and the results of later calls. Link with -Wl,--wrap for the C allocator.
#include "api.hxx"
#include <new>
#include <malloc.h>
#include <sys/wait.h>
using namespace ansak; using vm::Case; using gen::Rng;
const char* const kProperty = "P19";

static bool watching = false, sustained = false; static long countdown = 0, seen = 0, fired = 0; static long long liveBytes = 0, liveBlocks = 0;
static bool shouldFail() { if (!watching) return false; ++seen; if (!countdown) return false; if (seen == countdown || (sustained && seen > countdown)) { ++fired; return true; } return false; }
extern "C" { void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*);
static void* note(void* p) { if (p) { liveBytes += (long long)malloc_usable_size(p); ++liveBlocks; } return p; }
static void drop(void* p) { if (p) { liveBytes -= (long long)malloc_usable_size(p); --liveBlocks; } }
void* __wrap_malloc(size_t n) { return shouldFail() ? nullptr : note(__real_malloc(n)); }
void* __wrap_calloc(size_t a, size_t b) { return shouldFail() ? nullptr : note(__real_calloc(a, b)); }
void* __wrap_realloc(void* p, size_t n) { if (shouldFail()) return nullptr; drop(p); return note(__real_realloc(p, n)); }
void __wrap_free(void* p) { drop(p); __real_free(p); } }
void* operator new(size_t n) { if (shouldFail()) throw std::bad_alloc(); void* p = note(__real_malloc(n ? n : 1)); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return shouldFail() ? nullptr : note(__real_malloc(n ? n : 1)); }
void* operator new[](size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void operator delete(void* p) noexcept { drop(p); __real_free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

static uint64_t hashArgs(const api::Args& a, bool victims)
{
    api::Sink h; h(a.b); h(a.w); h(a.d); h(a.ww); h(a.lang); h(a.set8); h(a.set16); h(a.set32); h(a.setw); h(a.p8); h(a.p16); h(a.p32); h(a.pwd);
    const unsigned char* p = reinterpret_cast<const unsigned char*>(&a.pred); for (size_t i = 0; i < sizeof a.pred; ++i) h.put(p[i]);
    if (victims) { h(a.vb); h(a.vw); h(a.vd); h(a.vww); }
    return h.h;
}
enum Outcome { kDone, kBadAlloc, kOther };
static Outcome runOp(const api::Op& op, const api::View& v, uint64_t& h)
{
    api::Sink r; Outcome o = kDone;
    watching = true; seen = fired = 0;
    try { op.f(v, r); } catch (const std::bad_alloc&) { o = kBadAlloc; } catch (...) { o = kOther; }
    watching = false;
    h = r.h; return o;
}
static void oneOp(const Case& c, api::Args& a, const api::Op& op)
{
    auto bad = [&](const std::string& m) { vm::fail(c, std::string(op.name) + ": " + m); };
    uint64_t want, h;
    countdown = 0; if (op.inPlace) a.victims();
    api::View v = a.view();
    if (runOp(op, v, want) != kDone) { bad("exception with memory available"); return; }
    if (op.inPlace) a.victims();
    long long b1 = liveBytes, n1 = liveBlocks; (void)b1;
    if (runOp(op, v, h) != kDone || h != want) { bad("second call differs"); return; }
    long allocs = seen;
    // a leak grows with every call; what an operation keeps for later (a cache) does not
    auto growing = [&](long k) {
        VM_COUNT("suspected leak repeated");
        long long last = 0, lastB = 0;
        for (int i = 0; i < 8; ++i)
        {
            if (op.inPlace) a.victims();
            uint64_t x; countdown = k; runOp(op, v, x); countdown = 0;
            if (op.inPlace) a.victims();
            if (i == 0) { last = liveBlocks; lastB = liveBytes; continue; }
            if (liveBlocks <= last && (op.inPlace || liveBytes <= lastB)) return false;
            last = liveBlocks; lastB = liveBytes;
        }
        return true;
    };
    if (!op.inPlace && liveBlocks != n1 && growing(0)) { bad("memory leaked by a successful call"); return; }
    if (!allocs) { VM_COUNT("operation that allocates nothing"); return; }
    for (long k = 1; k <= allocs; ++k)
    {
        if (allocs > 80 && k > 40 && k <= allocs - 20 && k % (allocs / 20)) continue;
        if (op.inPlace) { a.victims(); }
        uint64_t before = hashArgs(a, true), beforeRead = hashArgs(a, false); long long lb = liveBytes, ln = liveBlocks;
        countdown = k; Outcome o = runOp(op, v, h); countdown = 0; long f = fired; bool leak = liveBlocks > ln || (!op.inPlace && liveBytes != lb);
        std::string at = " when allocation " + std::to_string(k) + " of " + std::to_string(allocs) + " fails";
        if (!f) { VM_COUNT("needed fewer allocations than the call before"); if (o != kDone || h != want) bad("another result when called again"); continue; }
        VM_COUNT("allocation made to fail");
        if (o == kDone && h == want) VM_COUNT("could do without the allocation");
        else if (o == kDone) bad("wrong result instead of an exception" + at);
        else if (o == kOther) bad("an exception other than std::bad_alloc" + at);
        else VM_COUNT("std::bad_alloc seen");
        if (leak && growing(k)) bad("memory leaked" + at);
        if (o == kDone ? hashArgs(a, false) != beforeRead : hashArgs(a, true) != before) bad("an argument changed" + at); else VM_COUNT("arguments compared");
        if (op.inPlace && o != kDone) { uint64_t w2; if (runOp(op, v, w2) != kDone || w2 != want) bad("another result afterwards, on the text left behind" + at); }
        if (op.inPlace) a.victims();
        uint64_t again; if (runOp(op, v, again) != kDone || again != want) bad("another result afterwards" + at); else VM_COUNT("later result compared");
        ++vm::st().evaluations; ++vm::st().heart;
    }
}
void checkCase(const Case& c)
{
    static api::Args a; a = api::Args();        // strings with exactly the capacity they need
    sustained = !c.n.empty() && (c.n[0] >> 16 & 1);
    api::load(a, c);
    long only = !c.n.empty() && c.n[0] >> 20 ? long(c.n[0] >> 20) - 1 : -1;
    for (size_t i = 0; i < api::ops().size(); ++i) if (only < 0 || only == long(i)) oneOp(c, a, api::ops()[i]);
}
// the first call of an operation in a process fails: whatever it sets up once must be set up properly later
static void cold(const Case& c, size_t i)
{
    struct Shared { uint64_t want, after; long allocs; int verdict; };
    static Shared* sh = static_cast<Shared*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    const api::Op& op = api::ops()[i];
    auto child = [&](long k) {
        pid_t p = fork();
        if (p == 0)
        {
            setitimer(ITIMER_PROF, nullptr, nullptr); signal(SIGALRM, SIG_DFL); alarm(60);
            api::Args a; api::load(a, c); if (op.inPlace) a.victims(); api::View v = a.view();
            uint64_t h; countdown = k; Outcome o = runOp(op, v, h); long f = fired; countdown = 0;
            if (!k) { sh->want = h; sh->allocs = seen; _exit(o == kDone ? 0 : 1); }
            if (!f) _exit(0);
            if (o != kBadAlloc && (o != kDone || h != sh->want)) { sh->verdict = 1; _exit(1); }
            if (op.inPlace) a.victims();
            if (runOp(op, v, h) != kDone || h != sh->want) { sh->verdict = 2; _exit(1); }
            _exit(0);
        }
        int st = 0; waitpid(p, &st, 0); return st;
    };
    sh->verdict = 0; sh->allocs = 0;
    if (child(0)) { vm::fail(c, std::string(op.name) + ": first call of a process failed with memory available"); return; }
    long n = sh->allocs; if (n > 60) n = 60;
    for (long k = 1; k <= n; ++k)
    {
        sh->verdict = 0;
        if (child(k)) { vm::fail(c, std::string(op.name) + (sh->verdict == 1 ? ": another exception or a wrong result instead of std::bad_alloc" : sh->verdict == 2 ? ": wrong result after a failure" : ": died") + std::string(" when allocation ") + std::to_string(k) + " of the first call of a process fails"); return; }
        VM_COUNT("first call of a process made to fail"); ++vm::st().evaluations; ++vm::st().heart;
    }
}
void workload()
{
    auto& s = vm::st();
    Rng rng(s.seed * 1000 + s.shard + 77 * s.version);
    Case c;
    for (int r = 0; r < (s.thorough ? 60 : 12); ++r)
        for (size_t i = 0; i < api::ops().size(); ++i)
        {
            if (i % s.shards != s.shard) continue;
            do { Rng q(s.seed * 1000003 + r * 1009 + i + rng.below(1000000)); c = api::randCase(q, false, false); } while (c.b.size() + c.w.size() + c.d.size() > 600 || c.d.size() < 10);
            if (r % 2) c.n[0] &= ~1;
            c.n[0] |= (long long)(i + 1) << 20;
            cold(c, i);
        }
    // texts around the sizes where strings and vectors grow
    for (size_t n = 0; n < 70; ++n)
    {
        if (!vm::myTurn()) continue;
        for (int kind = 0; kind < 4; ++kind)
        {
            c = Case(); c.op = "api"; c.n = { kind & 1 ? 1 << 16 : 0, 5, 1, 3, 1, ',' }; c.s = kind & 2 ? "tr" : "";
            for (size_t i = 0; i < n; ++i) { uint32_t v = kind == 0 ? 'a' : kind == 1 ? (i % 3 ? 'B' : ',') : kind == 2 ? 0x3042 + i : 0x1F600 + i; c.d.push_back(v); model::put8(c.b, v); model::put16(c.w, v); }
            vm::runHere(c); VM_COUNT("sizes where containers grow");
        }
    }
    size_t n = s.limit ? s.limit : s.thorough ? 120000 : 8000;
    for (size_t i = 0; i < n; ++i)
    {
        do c = api::randCase(rng, false, i % 50 == 0); while (c.b.size() > 3000);
        if (rng.chance(1, 3)) c.n[0] |= 1 << 16;
        vm::runHere(c); VM_COUNT("random cases");
    }
}
Case fuzzCase(const uint8_t*, size_t) { return Case(); }
