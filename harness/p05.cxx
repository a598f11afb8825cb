// P05: stepping a UTF-8 decoder over text visits each code point exactly once
#include "internal/string_decode_utf8.hxx"
#include "gen.hxx"
using vm::Case; using gen::Rng;
using ansak::internal::decodeUtf8;
const char* const kProperty = "P05";

enum Kind { kChar, kBroken, kRanOut, kRanOutOrBroken };
struct Step { Kind k; uint32_t cp; size_t last; };

// one code point at s[i] (i < n), by trying prefixes with the whole-text model
static Step step(const char* s, size_t n, size_t i)
{
    size_t most = std::min<size_t>(n - i, 6);
    for (size_t len = 1; len <= most; ++len)
    {
        model::Text t = model::dec8(s + i, len);
        if (!t.valid) return { kBroken, 0, 0 };
        if (t.cps.size() == 1 && t.tail == model::kNone) return { kChar, t.cps[0], i + len - 1 };
        if (len == most && i + len == n) return { t.tail == model::kDoomed ? kRanOutOrBroken : kRanOut, 0, n };
    }
    return { kBroken, 0, 0 };
}

static bool ok(const char* base, size_t n, size_t i, std::string* why)
{
    Step e = step(base, n, i);
    const char* p = base + i;
    uint32_t c = decodeUtf8(p);
    bool good;
    switch (e.k)
    {
    case kChar: good = c == e.cp && p == base + e.last; break;
    case kBroken: good = c == 0 && p == nullptr; break;
    case kRanOut: good = c == 0 && p == base + n; break;
    default: good = c == 0 && (p == base + n || p == nullptr); break;
    }
    if (!good && why)
    {
        *why = "at offset " + std::to_string(i) + " returned " + std::to_string(c) + " and position " + (p ? std::to_string(p - base) : std::string("null")) +
               "; expected " + (e.k == kChar ? "code point " + std::to_string(e.cp) + " and position " + std::to_string(e.last) : e.k == kBroken ? std::string("0 and null") : std::string("0 and the terminator"));
    }
    return good;
}

void checkCase(const Case& c)
{
    const char* b = gen::guard().z(c.b);
    size_t n = c.b.size();
    std::string why;
    // from every position (all of them for short texts)
    size_t stride = n > 600 ? n / 300 : 1;
    for (size_t i = 0; i < n; i += (i + 16 < n && i > 16) ? stride : 1)
    {
        VM_COUNT("single decode");
        if (!ok(b, n, i, &why)) { vm::fail(c, why); return; }
    }
    // whole walk
    model::Text t = model::dec8(c.b);
    std::u32string seen; bool broke = false; size_t steps = 0;
    for (const char* p = b; *p; ++p)
    {
        const char* q = p;
        uint32_t v = decodeUtf8(p);
        if (++steps > n + 1) { vm::fail(c, "the walk does not end"); return; }
        if (!p) { broke = true; break; }
        if (!v) { if (p != b + n) vm::fail(c, "stopped with 0 before the terminator"); break; }
        if (p < q || p >= b + n) { vm::fail(c, "the position moved out of the text"); return; }
        seen.push_back(v);
    }
    VM_COUNT("whole walk");
    if (t.valid ? seen != t.cps : (!broke || seen != t.cps)) vm::fail(c, "the walk saw [" + vm::hex(seen) + "], the text holds [" + vm::hex(t.cps) + "]");
    if (t.valid && broke && t.tail != model::kDoomed) vm::fail(c, "the walk of text without errors ended with a null position");
    if (memcmp(b, c.b.c_str(), n + 1)) vm::fail(c, "the text was modified");
}

static void fast(const char* p, size_t n, bool en = true)
{
    vm::fastEval(en);
    if (!ok(p, n, 0, nullptr)) { Case c; c.op = "u8"; c.b.assign(p, n); vm::runHere(c); if (vm::st().viol.empty()) vm::fail(c, "wrong only in a tight loop (depends on history or address)"); }
}
static void valid(uint32_t v)
{
    vm::fastEval(true);
    char b[8]; std::string t; model::put8(t, v);
    memcpy(b, t.data(), t.size()); b[t.size()] = 'z'; b[t.size() + 1] = 0;
    const char* p = b;
    if (decodeUtf8(p) != v || p != b + t.size() - 1) { Case c; c.op = "u8"; c.b = b; vm::runHere(c); if (vm::st().viol.empty()) vm::fail(c, "wrong only in a tight loop"); }
}

void workload()
{
    auto& s = vm::st();
    Rng rng(s.seed * 1000 + s.shard);
    Case c;
    for (unsigned a = 1 + s.shard; a < 256; a += s.shards)
    {
        char b[8] = { char(a), 0 };
        fast(b, 1);
        for (unsigned x = 1; x < 256; ++x)
        {
            b[1] = char(x); b[2] = 0; fast(b, 2);
            for (unsigned y = 1; y < 256; ++y)
            {
                b[2] = char(y); b[3] = 0; fast(b, 3);
                if (s.thorough && a >= 0xE0)
                    for (unsigned z = 1; z < 256; ++z) { b[3] = char(z); b[4] = 0; fast(b, 4); }
            }
        }
        vm::ev("first byte: all 3-byte sequences");
    }
    // every surrogate pair written as 3 + 3 bytes
    for (uint32_t v = 0x10000 + s.shard; v < 0x110000; v += s.shards) { std::string t; model::putCesu(t, v); fast(t.c_str(), t.size()); }
    // every high surrogate followed by every three-byte lead and boundary continuation
    for (unsigned hi = 0xD800 + s.shard; hi < 0xDC00; hi += s.shards)
        for (unsigned l = 0xDF; l <= 0xF0; ++l) for (unsigned k1 : { 0x7Fu, 0x80u, 0x9Fu, 0xA0u, 0xAFu, 0xB0u, 0xBFu, 0xC0u }) for (unsigned k2 : { 0x7Fu, 0x80u, 0xBFu, 0xC0u })
        { std::string t; model::put8(t, hi); t.push_back(char(l)); t.push_back(char(k1)); t.push_back(char(k2)); fast(t.c_str(), t.size()); }
    // all 31-bit values
    uint64_t step = s.thorough ? 1 : 61;
    for (uint64_t v = 0x80 + s.shard * (s.thorough ? 1 : 1); v < 0x80000000ull; v += (v < 0x400000 ? s.shards : s.shards * step)) if (!model::isSur(uint32_t(v))) valid(uint32_t(v));
    for (unsigned bit = 7; bit < 31; ++bit) for (int d = -70; d <= 70; ++d) { int64_t v = (int64_t(1) << bit) + d; if (v > 0 && v <= 0x7FFFFFFF && !model::isSur(uint32_t(v)) && vm::myTurn()) valid(uint32_t(v)); }
    vm::ev("31-bit values", s.thorough ? 0x80000000ull / s.shards : 0x80000000ull / s.shards / 61);
    const auto& al = gen::alpha8();
    size_t k = al.size();
    for (unsigned len = 4; len <= (s.thorough ? 5u : 4u); ++len)
    {
        size_t total = 1; for (unsigned j = 0; j < len; ++j) total *= k;
        for (size_t i = s.shard; i < total; i += s.shards)
        {
            char b[8]; size_t v = i; for (unsigned j = 0; j < len; ++j) { b[j] = char(al[v % k]); v /= k; } b[len] = 0; fast(b, len);
        }
        vm::ev("alphabet sequences", total / s.shards);
    }
    for (size_t i = 0; i < (s.thorough ? 20000000u : 2000000u); ++i)
    {
        char b[8]; unsigned n = 5 + unsigned(rng.below(3));
        b[0] = char(rng.chance(1, 2) ? 0xF0 + rng.below(16) : al[rng.below(k)]);
        for (unsigned j = 1; j < n; ++j) b[j] = char(rng.chance(3, 4) ? 0x80 + rng.below(64) : al[rng.below(k)]);
        b[n] = 0; fast(b, n, false);
    }
    gen::texts8(rng, s.thorough ? 1000000 : 50000, [&](const std::string& t) { c = Case(); c.op = "u8"; c.b = t; vm::runHere(c); });
}
Case fuzzCase(const uint8_t* p, size_t n) { Case c; c.op = "u8"; c.b = gen::fz8(p, n); return c; }
