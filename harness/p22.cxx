// P22: work grows in proportion to the length of the text. The library and the templates of its headers are compiled
// so that every basic block calls back; bulk memory functions and allocations are counted by the bytes they handle.
#include "api.hxx"
#include <new>
#include <malloc.h>
using namespace ansak; using vm::Case; using gen::Rng;
const char* const kProperty = "P22";
#define NOCOV __attribute__((no_sanitize_coverage))

static bool counting = false; static uint64_t blocks = 0, moved = 0, allocated = 0, budget = ~0ull; static long long live = 0, peak = 0;
static void NOCOV blown();
static inline NOCOV void pay(uint64_t b) { moved += b; }
extern "C" {
NOCOV void __sanitizer_cov_trace_pc() { if (counting && ++blocks > budget) blown(); }
void* __real_memmove(void*, const void*, size_t); void* __real_memcpy(void*, const void*, size_t); void* __real_memset(void*, int, size_t); void* __real_memchr(const void*, int, size_t); int __real_memcmp(const void*, const void*, size_t); size_t __real_strlen(const char*); size_t __real_wcslen(const wchar_t*);
wchar_t* __real_wmemmove(wchar_t*, const wchar_t*, size_t); wchar_t* __real_wmemcpy(wchar_t*, const wchar_t*, size_t); wchar_t* __real_wmemset(wchar_t*, wchar_t, size_t); wchar_t* __real_wmemchr(const wchar_t*, wchar_t, size_t); int __real_wmemcmp(const wchar_t*, const wchar_t*, size_t);
NOCOV void* __wrap_memmove(void* a, const void* b, size_t n) { if (counting) pay(n); return __real_memmove(a, b, n); }
NOCOV void* __wrap_memcpy(void* a, const void* b, size_t n) { if (counting) pay(n); return __real_memcpy(a, b, n); }
NOCOV void* __wrap_memset(void* a, int b, size_t n) { if (counting) pay(n); return __real_memset(a, b, n); }
NOCOV void* __wrap_memchr(const void* a, int b, size_t n) { void* r = __real_memchr(a, b, n); if (counting) pay(r ? size_t(static_cast<const char*>(r) - static_cast<const char*>(a)) + 1 : n); return r; }
NOCOV int __wrap_memcmp(const void* a, const void* b, size_t n) { if (counting) pay(n); return __real_memcmp(a, b, n); }
NOCOV size_t __wrap_strlen(const char* a) { size_t r = __real_strlen(a); if (counting) pay(r); return r; }
NOCOV size_t __wrap_wcslen(const wchar_t* a) { size_t r = __real_wcslen(a); if (counting) pay(r * 4); return r; }
NOCOV wchar_t* __wrap_wmemmove(wchar_t* a, const wchar_t* b, size_t n) { if (counting) pay(n * 4); return __real_wmemmove(a, b, n); }
NOCOV wchar_t* __wrap_wmemcpy(wchar_t* a, const wchar_t* b, size_t n) { if (counting) pay(n * 4); return __real_wmemcpy(a, b, n); }
NOCOV wchar_t* __wrap_wmemset(wchar_t* a, wchar_t b, size_t n) { if (counting) pay(n * 4); return __real_wmemset(a, b, n); }
NOCOV wchar_t* __wrap_wmemchr(const wchar_t* a, wchar_t b, size_t n) { wchar_t* r = __real_wmemchr(a, b, n); if (counting) pay(4 * (r ? size_t(r - a) + 1 : n)); return r; }
NOCOV int __wrap_wmemcmp(const wchar_t* a, const wchar_t* b, size_t n) { if (counting) pay(n * 4); return __real_wmemcmp(a, b, n); }
}
NOCOV void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); if (counting) { allocated += n; live += (long long)malloc_usable_size(p); if (live > peak) peak = live; } return p; }
NOCOV void* operator new[](size_t n) { return operator new(n); }
NOCOV void operator delete(void* p) noexcept { if (counting && p) live -= (long long)malloc_usable_size(p); free(p); }
NOCOV void operator delete[](void* p) noexcept { operator delete(p); }
NOCOV void operator delete(void* p, size_t) noexcept { operator delete(p); }
NOCOV void operator delete[](void* p, size_t) noexcept { operator delete(p); }

// ---------------------------------------------------------------- shapes: prefix + period repeated + suffix
struct Shape { const char* name; std::u32string pre, rep, suf; std::string rpre, rrep, rsuf; std::u16string wrep; char32_t delim = U','; const char* lang = nullptr; unsigned half = 0; };
static const std::vector<Shape>& shapes()
{
    static const std::vector<Shape> v = [] {
        std::vector<Shape> s;
        auto A = [&](const char* n, std::u32string pre, std::u32string rep, std::u32string suf, char32_t delim = U',', const char* lang = nullptr) { Shape x; x.name = n; x.pre = pre; x.rep = rep; x.suf = suf; x.delim = delim; x.lang = lang; s.push_back(x); };
        auto R = [&](const char* n, std::string pre, std::string rep, std::string suf, std::u16string w) { Shape x; x.name = n; x.rpre = pre; x.rrep = rep; x.rsuf = suf; x.wrep = w; s.push_back(x); };
        A("letters", U"", U"a", U""); A("capitals", U"", U"ABC", U""); A("I", U"", U"I", U"", U',', "tr"); A("dotted I", U"", U"\u0130", U"", U',', "tr"); A("I, German", U"", U"I\u0130", U"", U',', "de");
        A("only spaces", U"", U" ", U""); A("only tabs", U"", U"\t", U""); A("blanks in front", U"", U" ", U"x"); A("blanks behind", U"x", U" ", U""); A("blanks inside", U"x", U" ", U"y"); A("blank, letter", U"", U" a", U""); A("letter, blank", U"", U"a ", U"");
        A("wide blanks", U"", U"\u3000", U""); A("wide blanks in front", U"", U"\u2003", U"x"); A("wide blanks behind", U"x", U"\u00a0", U""); A("wide blanks inside", U"x", U"\u2003\u3000", U"y"); A("mixed blanks", U"", U" \t\u1680\r\n", U""); A("mixed blanks in front", U"", U"\t \n", U"word");
        A("no delimiter", U"", U"abcdefgh", U""); A("only delimiters", U"", U",", U""); A("delimiter, letter", U"", U",a", U""); A("long pieces", U"", U"abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz,", U""); A("delimiters in front", U"", U",", U"abc"); A("delimiters behind", U"abc", U",", U""); A("NUL-like delimiter", U"", U"a\u0001", U"", 1);
        A("two bytes", U"", U"\u00e9", U""); A("three bytes", U"", U"\u20ac", U""); A("four bytes", U"", U"\U0001F600", U""); A("four bytes and letters", U"", U"\U0001F600a", U""); A("private", U"", U"\ue000", U""); A("private planes", U"", U"\U000F0000", U""); A("unassigned", U"", U"\u0378", U""); A("controls", U"", U"\u0085\u0001", U"");
        A("combining marks", U"e", U"\u0301", U""); A("beyond Unicode", U"", std::u32string(1, char32_t(0x110000)), U""); A("six bytes", U"", std::u32string(1, char32_t(0x7FFFFFFF)), U""); A("five bytes", U"", std::u32string(1, char32_t(0x200000)), U""); A("bad value in front", std::u32string(1, char32_t(0x110000)), U"abc", U""); A("bad value behind", U"", U"abc", std::u32string(1, char32_t(0x110000)));
        A("bad value in the middle", U"", U"", U""); s.back().half = 1; A("Georgian", U"", U"\u1c90", U""); A("all over", U"", U"aA \u00c0\u0391\u0410\u10a0\u3042\u4e00\uac00\U00010400\U0001E900,", U"");
        R("lead bytes", "", "\xC3", "", u"\xD800"); R("lead bytes of four", "", "\xF0", "", u"\xDBFF"); R("continuation bytes", "", "\x80", "", u"\xDC00"); R("FF", "", "\xFF", "", u"\xDFFF"); R("overlong", "", "\xC0\x80", "", u"\xDC00\xD800"); R("CESU pairs", "", "\xED\xA0\x81\xED\xB0\x80", "", u"\xD801\xDC00"); R("lone high", "", "\xED\xA0\x80", "", u"\xD801x"); R("lone low", "", "\xED\xB0\x80", "", u"x\xDC01");
        R("cut sequences", "", "\xE2\x82", "", u"\xD801 "); R("letters, then cut", "", "a", "\xF0\x9F\x98", u"a"); R("letters, then bad", "", "a", "\xFF", u"b"); R("bad, then letters", "\xFF", "a", "", u"c"); R("pairs, then cut", "", "\xED\xA0\x81\xED\xB0\x80", "\xED\xA0\x81", u"\xD801\xDC00"); R("three bytes, then cut", "", "\xE2\x82\xAC", "\xE2\x82", u"\x20AC"); R("letters, then high half", "", "abc", "\xED\xA0\x81", u"a"); R("code page bytes", "", "\x80\x8A\xE9", "", u"\x0080"); R("blanks, then bad", "", " ", "\xC3", u" "); R("bad, then blanks", "\xC3", " ", "", u" ");
        return s;
    }();
    return v;
}
static std::u32string randBit(Rng& r) { if (r.chance(1, 3)) { std::u32string t; for (size_t k = 1 + r.below(4); k--;) t.push_back(gen::randCp(r, r.chance(1, 8) ? gen::kAny31 : gen::kUnicode)); return t; }
    static const uint32_t pool[] = { 'a', 'I', ' ', ',', '\t', 0xA0, 0xE9, 0x130, 0x20AC, 0x3000, 0x1F600, 0xE000, 0x378, 0x85, 0x10400, 0x1680, 0x110000, 0x7FFFFFFF, 'Z', 1 }; std::u32string s; size_t k = r.below(5); if (r.chance(1, 12)) k = 20 + r.below(60); for (size_t i = 0; i < k; ++i) s.push_back(pool[r.below(r.chance(1, 10) ? 20 : 16)]); return s; }
template <class S> static void grow(S& out, const S& pre, const S& rep, const S& suf, size_t n) { out = pre; if (!rep.empty()) while (out.size() + suf.size() < n) out += rep; out += suf; }
static void fill(api::Args& a, const Case& c)
{
    // n = { operation, shape or -1, seed, length }
    size_t n = size_t(c.n[3]); a = api::Args();
    a.delim = ','; a.range = kUnicode; a.et = 1; a.et2 = 3; a.src = 1;
    if (c.n[1] == -2)           // a run of one code point or byte
    {
        uint32_t v = uint32_t(c.n[2]); a.d.assign(n, char32_t(v)); a.b = model::enc8(a.d); a.w = model::enc16(a.d); a.src = 0; a.noLang = v % 2 == 0; a.lang = v % 4 == 1 ? "tr" : "fr"; a.delim = v % 3 ? U',' : char32_t(v);
        if (v >= 0x80 && v < 0x100) { a.b.assign(n, char(v)); a.src = 1 + (long long)(c.n.size() > 4 ? c.n[4] : 0); }
    }
    else if (c.n[1] >= 0)
    {
        const Shape& s = shapes()[size_t(c.n[1])];
        if (s.half) { a.d = std::u32string(n / 2, U'a') + char32_t(0x110000) + std::u32string(n / 2, U' '); a.b = model::enc8(a.d); a.w = std::u16string(n / 2, u'a') + char16_t(0xDC00) + std::u16string(n / 2, u' '); }
        else if (!s.rrep.empty()) { grow(a.b, s.rpre, s.rrep, s.rsuf, n); grow(a.w, std::u16string(), s.wrep, std::u16string(), n); grow(a.d, std::u32string(U"x"), std::u32string(U"abc"), std::u32string(1, char32_t(0xD800)), n); }
        else { grow(a.d, s.pre, s.rep, s.suf, n); a.b = model::enc8(a.d); a.w = model::enc16(a.d); a.delim = s.delim; if (s.lang) { a.noLang = false; a.lang = s.lang; } if (!s.pre.empty() && s.pre[0] == 0x110000) a.w[0] = 0xDC00; if (!s.suf.empty() && s.suf.back() == 0x110000) a.w.back() = 0xDC00; }
        a.src = c.n[1] % 3;
    }
    else
    {
        Rng r(uint64_t(c.n[2])); std::u32string pre = randBit(r), rep = randBit(r), suf = randBit(r), mid = randBit(r); if (rep.empty()) rep = U"q";
        grow(a.d, pre, rep, suf, n); if (r.chance(1, 4)) { std::u32string t; std::u32string rep2 = randBit(r); if (rep2.empty()) rep2 = U" "; grow(t, mid, rep2, suf, n / 2); a.d = a.d.substr(0, n / 2) + t; }
        a.b = model::enc8(a.d); a.w = model::enc16(a.d);
        if (r.chance(1, 4))             // units as they come
        {
            std::string p, q; std::u16string x; for (size_t k = 1 + r.below(4); k--;) { p.push_back(char(gen::dict().fresh.empty() || r.chance(2, 3) ? 1 + r.below(255) : gen::dict().fresh[r.below(gen::dict().fresh.size())])); x.push_back(char16_t(r.chance(1, 3) ? 0xD800 + r.below(0x800) : 1 + r.below(0xFFFF))); }
            if (r.chance(1, 3)) q = gen::shapes8().all[r.below(gen::shapes8().all.size())];
            if (r.chance(1, 4)) p = gen::shapes8().valid[r.below(gen::shapes8().valid.size())] + (r.chance(1, 2) ? gen::shapes8().valid[r.below(gen::shapes8().valid.size())] : std::string());
            for (auto& ch : p) if (!ch) ch = 1;
            grow(a.b, std::string(), p, q, n); grow(a.w, std::u16string(), x, std::u16string(), n);
        }
        static const char32_t ds[] = { U',', U' ', U'a', 0x3000 }; a.delim = ds[r.below(4)]; a.noLang = r.chance(1, 2); a.lang = r.chance(1, 2) ? "tr" : "en"; a.src = (long long)r.below(3); a.range = (long long)r.below(6);
        for (size_t k = r.below(3); k--;) a.pred = r.chance(1, 2) ? a.pred.andIf(static_cast<EncodingType>(1 + r.below(4))) : a.pred.andIfNot(static_cast<EncodingType>(1 + r.below(4)));
    }
    a.ww.clear(); for (char32_t v : a.d) a.ww.push_back(wchar_t(v));
    a.set8 = " \tx"; a.set16 = u" \t\u3000"; a.set32 = U" \t\u3000"; a.setw = L" \tx";
    // pieces: short ones, all empty, a long one among short ones, two halves
    unsigned style = c.n[1] >= 0 ? 0 : unsigned(c.n[2]) % 5;
    auto cut = [&](const auto& s, auto& out) { out.clear(); size_t z = s.size();
        if (style < 2) for (size_t i = 0; i < z; i += 2) out.push_back(s.substr(i, i % 3));
        else if (style == 2) out.resize(z);
        else if (style == 3) { out.push_back(s.substr(0, z / 2)); for (size_t i = z / 2; i < z; i += 5) out.push_back(s.substr(i, 4)); }
        else { out.push_back(s.substr(0, z / 2)); out.push_back(s.substr(z / 2)); } };
    cut(a.b, a.p8); cut(a.w, a.p16); cut(a.d, a.p32); cut(a.ww, a.pwd);
    // in-place operations see the shape as it is
    a.vb = a.b; a.vw = a.w; a.vd = a.d; a.vww = a.ww;
}
static const Case* now = nullptr; static const char* nowName = "";
static void NOCOV blown() { counting = false; static char m[300]; snprintf(m, sizeof m, "%s: more work than proportional (stopped; shape %s, length %lld)", nowName, now->n[1] >= 0 ? shapes()[size_t(now->n[1])].name : now->n[1] == -2 ? "one code point" : "random", now->n[3]); vm::dumpCurrent(m); _exit(77); }
struct Work { uint64_t w, mem, peak; };
static Work measure(const Case& c, size_t n, uint64_t limit)
{
    static api::Args a; static Case k; k = c; k.n[3] = (long long)n;
    fill(a, k); const api::Op& op = api::ops()[size_t(c.n[0])]; api::View v = a.view(); api::Sink r;
    now = &k; nowName = op.name; vm::st().cur = &k;
    blocks = moved = allocated = 0; live = peak = 0; budget = limit;
    counting = true; op.f(v, r); counting = false;
    vm::st().cur = &c; VM_COUNT("measured call"); vm::ev("basic blocks counted", blocks); vm::ev("bytes handled in bulk", moved); vm::ev("bytes allocated", allocated);
    return Work{ blocks + moved / 2, allocated, uint64_t(peak) };
}
void checkCase(const Case& c)
{
    size_t n = size_t(c.n[3]);
    Work a = measure(c, n / 4, ~0ull >> 1), b = measure(c, n, 20 * a.w + 40 * n + 1000000);
    // proportional means four times as much for four times the text; quadratic would be sixteen times. A step of doubling storage
    // can fall between the two lengths, so growth by more than six times is confirmed at four times the length again
    auto steep = [](uint64_t x, uint64_t y) { return y > 6 * x + 64 * 64; };
    if (!steep(a.w, b.w) && !steep(a.mem, b.mem) && !steep(a.peak, b.peak)) return;
    VM_COUNT("growth confirmed at a third length");
    Work d = measure(c, 4 * n, 80 * a.w + 160 * n + 4000000);
    auto judge = [&](uint64_t x, uint64_t y, uint64_t z, const char* what) {
        if (steep(x, y) && z > 48 * x + 64 * 64 * 8) vm::fail(c, std::string(api::ops()[size_t(c.n[0])].name) + ": " + what + " grew from " + std::to_string(x) + " to " + std::to_string(y) + " and " + std::to_string(z) + " when the text grew from " + std::to_string(n / 4) + " to " + std::to_string(n) + " and " + std::to_string(4 * n) + " (shape " + (c.n[1] >= 0 ? shapes()[size_t(c.n[1])].name : c.n[1] == -2 ? "one code point" : "random") + ")"); };
    judge(a.w, b.w, d.w, "work"); judge(a.mem, b.mem, d.mem, "allocated memory"); judge(a.peak, b.peak, d.peak, "memory in use");
}
void workload()
{
    auto& s = vm::st(); Rng rng(s.seed * 1000 + s.shard);
    Case c; c.op = "work";
    for (size_t k = 0; k < shapes().size(); ++k)
        for (size_t o = 0; o < api::ops().size(); ++o)
        {
            if (!vm::myTurn()) continue;
            for (long long n : { 4096LL, 16384LL, 65536LL, 524288LL }) { if (s.violCount) return; if (!s.thorough && ((n > 100000 && (o + k + s.seed) % 29) || n == ((o + k + s.seed) % 6 ? 65536 : 16384))) continue; c.n = { (long long)o, (long long)k, 0, n }; vm::runHere(c); VM_COUNT("fixed shape"); }
        }
    // runs of one code point: for the operations with a source encoding every byte, for the others the edges, new numbers and some letters
    for (size_t o = 0; o < api::ops().size(); ++o)
    {
        std::vector<uint32_t> cps;
        if (strstr(api::ops()[o].name, "code page")) for (uint32_t v = 0x80; v < 0x100; ++v) cps.push_back(v);
        for (uint32_t v : gen::edgeUnicode()) if (s.thorough || (v + o + s.seed) % 5 == 0) cps.push_back(v);
        for (uint32_t v : gen::dict().fresh) if (v && v < 0x110000 && !model::isSur(v) && cps.size() < 400) cps.push_back(v);
        for (int k = 0; k < (s.thorough ? 200 : 4); ++k) cps.push_back(model::kLower[rng.below(sizeof model::kLower / sizeof model::kLower[0])][0]);
        for (uint32_t v : cps)
            for (long long e = 0; e < (v >= 0x80 && v < 0x100 ? 2 : 1); ++e)
            {
                if (!vm::myTurn()) continue;
                if (s.violCount) return;
                c.n = { (long long)o, -2, (long long)v, 4096, e }; vm::runHere(c); VM_COUNT("run of one code point or byte");
            }
    }
    for (size_t i = 0; i < (s.thorough ? 4000u : 60u); ++i)
    {
        long long seed = (long long)(rng.next() >> 20), n = rng.chance(5, 6) ? 16384 : 65536;
        for (size_t o = 0; o < api::ops().size(); ++o) { c.n = { (long long)o, -1, seed, n }; if (s.violCount) return; vm::runHere(c); }
        VM_COUNT("random shape");
    }
}
Case fuzzCase(const uint8_t*, size_t) { return Case(); }
