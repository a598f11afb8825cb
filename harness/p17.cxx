// P17: no input causes undefined behaviour, a crash or a hang. The oracle is the instrumentation the
// binary runs under (AddressSanitizer, UndefinedBehaviorSanitizer, valgrind, guard pages).
#include "api.hxx"
#include <memory>
#include <sys/resource.h>
using namespace ansak; using vm::Case; using gen::Rng;
const char* const kProperty = "P17";

// an exact-size heap block: anything past the last unit is somebody else's (or a red zone)
template <class C> struct Block
{
    char* raw; const C* p;
    Block(const C* s, size_t n, size_t shift) : raw(static_cast<char*>(malloc(n * sizeof(C) + shift ? n * sizeof(C) + shift : 1))) { memcpy(raw + shift, s, n * sizeof(C)); p = reinterpret_cast<const C*>(raw + shift); }
    ~Block() { free(raw); }
};
void checkCase(const Case& c)
{
    // a small stack, so that stack use in proportion to the text shows up at lengths that can be afforded here
    static bool once = [] { rlimit r; if (getrlimit(RLIMIT_STACK, &r) == 0 && !getenv("P17_STACK")) { r.rlim_cur = 1u << 20; setrlimit(RLIMIT_STACK, &r); } return true; }(); (void)once;
    static api::Args a;
    api::load(a, c);
    size_t sh = c.n.empty() ? 0 : size_t(c.n[0] >> 8) & 15;
    Block<char> b(a.b.c_str(), a.b.size() + 1, sh), lb(a.b.data(), a.b.size(), sh), lang(a.lang.c_str(), a.lang.size() + 1, sh);
    Block<char16_t> w(a.w.c_str(), a.w.size() + 1, sh & ~1u), lw(a.w.data(), a.w.size(), sh & ~1u);
    Block<char32_t> d(a.d.c_str(), a.d.size() + 1, sh & ~3u), ld(a.d.data(), a.d.size(), sh & ~3u);
    Block<wchar_t> ww(a.ww.c_str(), a.ww.size() + 1, sh & ~3u);
    api::View v = a.view();
    if (!a.nulls) { v.pb = b.p; v.pw = w.p; v.pd = d.p; v.pww = ww.p; }
    v.lb = lb.p; v.lw = lw.p; v.ld = ld.p;
    if (v.lang) v.lang = lang.p;
    static uint64_t fold = 0;
    for (auto& op : api::ops())
    {
        if (op.inPlace) a.victims();
        api::Sink r;
        op.f(v, r);
        if (r.h == 42) fold += 2; else fold += r.h & 1;     // a decision on every bit of the result
        VM_COUNT("operation");
    }
    // decoding from every position of the terminated text
    if (v.pb && a.b.size() < 200)
        for (size_t i = 0; i < a.b.size(); ++i) { const char* p = v.pb + i; if (*p) { char32_t k = internal::decodeUtf8(p); fold += k; if (p && (p < v.pb + i || p > v.pb + a.b.size())) vm::fail(c, "decodeUtf8 left the text"); } }
    // every bound of the bare text
    if (a.b.size() < 40) for (size_t n = 1; n <= a.b.size(); ++n) { Block<char> q(a.b.data(), n, sh); fold += isUtf8(q.p, unsigned(n)); fold += isUtf8(q.p, unsigned(n), a.pred); fold += unicodeLength(q.p, unsigned(n)); VM_COUNT("bounded operation"); }
    if (a.w.size() < 40) for (size_t n = 1; n <= a.w.size(); ++n) { Block<char16_t> q(a.w.data(), n, 0); fold += unicodeLength(q.p, unsigned(n)); }
    if (a.d.size() < 40) for (size_t n = 1; n <= a.d.size(); ++n) { Block<char32_t> q(a.d.data(), n, 0); fold += unicodeLength(q.p, unsigned(n)); }
    if (fold == 1) puts("");
    if (a.nulls)
    {
        const char* z = nullptr; const char16_t* zw = nullptr; const char32_t* zd = nullptr;
        for (unsigned n : { 0u, 1u, 2u, 5u, 64u, 0x7fffffffu, 0x80000000u, 0xffffffffu })
        {
            fold += isUtf8(z, n) + isUtf8(z, n, a.pred) + unicodeLength(z, n) + unicodeLength(zw, n) + unicodeLength(zd, n);
            VM_COUNT("null pointer with a length");
        }
        VM_COUNT("null pointers");
    }
}
#ifdef __SANITIZE_ADDRESS__
const size_t kVeryLong = 400000;
#else
const size_t kVeryLong = 1600000;
#endif
void workload()
{
    auto& s = vm::st();
    Rng rng(s.seed * 1000 + s.shard + 131 * s.version);
    size_t n = s.limit ? s.limit : s.thorough ? 250000 : 6000;
    Case c;
    for (int nul = 0; nul < 4; ++nul) { c = Case(); c.op = "api"; c.n = { nul }; vm::runHere(c); }
    for (size_t i = 0; i < n; ++i)
    {
        c = api::randCase(rng, true);
        c.n[0] |= (long long)rng.below(16) << 8;
        vm::runHere(c);
        VM_COUNT("hostile argument tuple");
    }
    // every shape of a UTF-8 sequence cut at every point, alone and after padding of each small length
    size_t step = s.limit ? 7 : 1, maxPad = s.thorough ? 70 : 20;
    size_t k = 0;
    for (auto& sh : gen::shapes8().all)
        for (size_t pad = 0; pad <= maxPad; pad += 1)
        {
            if (k++ % step || !vm::myTurn()) continue;
            c = Case(); c.op = "api"; c.b = std::string(pad, 'a') + sh; c.w = std::u16string(pad, u'a') + gen::shapes16()[rng.below(gen::shapes16().size())]; c.d = std::u32string(pad, U'a') + char32_t(gen::edge32()[rng.below(gen::edge32().size())]);
            c.s = api::kLangs[rng.below(20)]; c.n = { 0, (long long)rng.below(6), 1, 3, (long long)rng.below(3), 'a', (long long)(2 + rng.below(8)) };
            vm::runHere(c);
            VM_COUNT("shape cut and padded");
        }
    // all code points through the table-driven operations
    if (!s.limit)
        for (uint32_t v = 1 + s.shard * 64; v < 0x110000 + 0x4000; v += 64 * s.shards)
        {
            c = Case(); c.op = "api"; for (uint32_t x = v; x < v + 64; ++x) { c.d.push_back(x); if (!model::isSur(x) && x < 0x110000) { model::put8(c.b, x); model::put16(c.w, x); } }
            c.n = { 0, 5, 1, 3, 0, 'a', 2, 4 }; c.s = "tr"; vm::runHere(c);
            VM_COUNT("64 code points");
        }
    for (size_t i = 0; i < (s.limit ? 1 : s.thorough ? 40 : 3); ++i)
    {
        c = Case(); c.op = "api"; size_t len = s.limit ? 5000 : 70000 + rng.below(70000);
        for (size_t j = 0; j < len; ++j) { uint32_t x = gen::randCp(rng, gen::kUnicode); c.d.push_back(x); model::put8(c.b, x); model::put16(c.w, x); }
        c.n = { 0, 5, 1, 3, 1, 'a' }; vm::runHere(c); VM_COUNT("very long text");
    }
    // depth must not depend on the length either
    const char32_t units[] = { U' ', U',', U'x', U'I', 0x3000, 0xE9, 0x1F600, U'\t' };
    for (size_t i = 0; i < 8; ++i)
    {
        if (s.limit ? i > 1 : !vm::myTurn()) continue;
        c = Case(); c.op = "api"; size_t len = s.limit ? 3000 : kVeryLong; c.d.assign(len, units[i]); c.b = model::enc8(c.d); c.w = model::enc16(c.d);
        c.n = { 0, 5, 1, 3, 1, (long long)units[i] }; c.s = "tr"; vm::runHere(c); VM_COUNT("one unit very often");
    }
}
Case fuzzCase(const uint8_t* p, size_t n)
{
    Case c; c.op = "api"; if (n < 8) return c;
    c.n = { p[0] & 3 && (p[0] & 0x60) == 0 ? 2 : 0, (long long)(signed char)p[1] % 9, (long long)(signed char)p[2] % 9, p[3] % 6, p[4] % 5, p[5], (long long)(signed char)p[6] % 12 };
    c.s = api::kLangs[p[7] % 20];
    p += 8; n -= 8;
    c.b.assign(reinterpret_cast<const char*>(p), n);
    for (size_t i = 0; i + 1 < n; i += 2) c.w.push_back(char16_t(p[i] | p[i + 1] << 8));
    for (size_t i = 0; i + 3 < n; i += 4) { uint32_t u; memcpy(&u, p + i, 4); c.d.push_back(u); }
    return c;
}
