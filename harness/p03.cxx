// P03: conversions are exact and all-or-nothing
#include "string.hxx"
#include "gen.hxx"
#include "ranges.hxx"
using namespace ansak; using vm::Case; using gen::Rng;
const char* const kProperty = "P03";

static std::u16string narrow(const std::u32string& s) { std::u16string r; for (char32_t c : s) r.push_back(char16_t(c)); return r; }

// got must be exact; with a tail whose fate is open, nothing at all is accepted as well
template <class S>
static void same(const Case& c, const char* what, const S& got, const S& exact, bool convertible, bool open)
{
    if (!convertible)
    {
        VM_COUNT("must give nothing");
        if (!got.empty()) vm::fail(c, std::string(what) + ": malformed or inexpressible text gave [" + vm::hex(got) + "]");
    }
    else if (got != exact && !(open && got.empty()))
        vm::fail(c, std::string(what) + ": gave [" + vm::hex(got) + "] instead of [" + vm::hex(exact) + "]");
    else VM_COUNT("exact conversion");
}

void checkCase(const Case& c)
{
    if (c.op == "u8")
    {
        model::Text t = model::dec8(c.b);
        const char* p = gen::guard().z(c.b);
        bool c2 = t.valid && model::allIn(t.cps, model::rUcs2), c16 = t.valid && model::allIn(t.cps, model::rUtf16);
        bool o2 = model::tailVerdict8(t, model::rUcs2) != model::vTrue, o16 = model::tailVerdict8(t, model::rUtf16) != model::vTrue, o4 = model::tailVerdict8(t, model::rUcs4) != model::vTrue;
        std::u16string e2 = c2 ? narrow(t.cps) : std::u16string(), e16 = c16 ? model::enc16(t.cps) : std::u16string();
        same(c, "toUcs2(const char*)", toUcs2(p), e2, c2, o2);
        same(c, "toUcs2(string)", toUcs2(c.b), e2, c2, o2);
        same(c, "toUtf16(const char*)", toUtf16(p), e16, c16, o16);
        same(c, "toUtf16(string)", toUtf16(c.b), e16, c16, o16);
        same(c, "toUcs4(const char*)", toUcs4(p), t.cps, t.valid, o4);
        same(c, "toUcs4(string)", toUcs4(c.b), t.cps, t.valid, o4);
    }
    else if (c.op == "u16")
    {
        model::Text t = model::dec16(c.w);
        const char16_t* p = gen::guard().z(c.w);
        std::string e8 = t.valid ? model::enc8(t.cps) : std::string();
        same(c, "toUtf8(const char16_t*)", toUtf8(p), e8, t.valid, false);
        same(c, "toUtf8(u16string)", toUtf8(c.w), e8, t.valid, false);
        same(c, "toUcs4(const char16_t*)", toUcs4(p), t.cps, t.valid, false);
        same(c, "toUcs4(u16string)", toUcs4(c.w), t.cps, t.valid, false);
    }
    else if (c.op == "u32")
    {
        model::Text t = model::dec32(c.d);
        const char32_t* p = gen::guard().z(c.d);
        bool c8 = t.valid && model::allIn(t.cps, model::rUtf8), c2 = t.valid && model::allIn(t.cps, model::rUcs2), c16 = t.valid && model::allIn(t.cps, model::rUtf16);
        std::string e8 = c8 ? model::enc8(t.cps) : std::string();
        std::u16string e2 = c2 ? narrow(t.cps) : std::u16string(), e16 = c16 ? model::enc16(t.cps) : std::u16string();
        same(c, "toUtf8(const char32_t*)", toUtf8(p), e8, c8, false);
        same(c, "toUtf8(u32string)", toUtf8(c.d), e8, c8, false);
        same(c, "toUcs2(const char32_t*)", toUcs2(p), e2, c2, false);
        same(c, "toUcs2(u32string)", toUcs2(c.d), e2, c2, false);
        same(c, "toUtf16(const char32_t*)", toUtf16(p), e16, c16, false);
        same(c, "toUtf16(u32string)", toUtf16(c.d), e16, c16, false);
    }
    else if (c.op == "null")
    {
        const char* a = nullptr; const char16_t* b = nullptr; const char32_t* d = nullptr;
        if (!toUcs2(a).empty() || !toUtf16(a).empty() || !toUcs4(a).empty() || !toUtf8(b).empty() || !toUcs4(b).empty() || !toUtf8(d).empty() || !toUcs2(d).empty() || !toUtf16(d).empty())
            vm::fail(c, "a null pointer converted to something");
    }
}

// tight loop over single values
static void one(uint32_t v)
{
    vm::fastEval(true);
    char32_t d[2] = { v, 0 };
    std::string e8; std::u16string e16;
    bool sur = model::isSur(v);
    if (!sur && v <= 0x7FFFFFFF) model::put8(e8, v);
    if (!sur && v <= 0x10FFFF) model::put16(e16, v);
    bool ok = toUtf8(d) == e8 && toUtf16(d) == e16 && toUcs2(d) == (v < 0x10000 ? e16 : std::u16string());
    if (ok && !e8.empty())
    {
        ok = toUcs4(e8.c_str()) == std::u32string(1, v) && toUtf16(e8.c_str()) == e16 && toUcs2(e8.c_str()) == (v < 0x10000 ? e16 : std::u16string());
    }
    if (ok && !e16.empty()) ok = toUtf8(e16.c_str()) == e8 && toUcs4(e16.c_str()) == std::u32string(1, v);
    if (!ok)
    {
        Case c; c.op = "u32"; c.d.assign(1, v); vm::runHere(c);
        c = Case(); c.op = "u8"; c.b = e8; vm::runHere(c);
        c = Case(); c.op = "u16"; c.w = e16; vm::runHere(c);
        if (vm::st().viol.empty()) { c = Case(); c.op = "u32"; c.d.assign(1, v); vm::fail(c, "conversion of this value is wrong only in a tight loop (depends on history or address)"); }
    }
}

void workload()
{
    auto& s = vm::st();
    Rng rng(s.seed * 1000 + s.shard);
    Case c;
    c.op = "null"; vm::run(c);
    for (const char* op : { "u8", "u16", "u32" }) { c.op = op; vm::run(c); }
    for (uint32_t v = 1 + s.shard; v < 0x200000; v += s.shards) one(v);
    vm::ev("values to 1FFFFF, all conversions", 0x200000 / s.shards);
    if (s.thorough)
    {
        for (uint64_t v = 0x200000 + s.shard; v < 0x100000000ull; v += s.shards * (v >= 0x80000000ull ? 64 : 4)) one(uint32_t(v));
        vm::ev("values to FFFFFFFF, thinned", (0x80000000ull / 4) / s.shards);
    }
    else for (unsigned i = 0; i < 400000; ++i) { uint32_t v = uint32_t(rng.next() >> (32 + rng.below(11))); if (v) one(v); }
    // every code point between neighbours of every width, all in one go: long texts in code point order and shuffled
    for (unsigned pass = 0; pass < (s.thorough ? 8u : 2u); ++pass)
    {
        std::u32string all;
        for (uint32_t v = 1; v < 0x110000; ++v) if (!model::isSur(v)) all.push_back(v);
        if (pass) for (size_t i = all.size() - 1; i > 0; --i) std::swap(all[i], all[rng.below(i + 1)]);
        for (size_t at = 0, step = 65536; at < all.size(); at += step)
        {
            if (!vm::myTurn()) continue;
            c = Case(); c.op = "u32"; c.d = all.substr(at, step); std::u32string keep = c.d; vm::runHere(c);
            c = Case(); c.op = "u16"; c.w = model::enc16(keep); vm::runHere(c);
            c = Case(); c.op = "u8"; c.b = model::enc8(keep); vm::runHere(c);
            vm::ev("long texts of all code points");
        }
    }
    // byte sequences
    const auto& al = gen::alpha8();
    for (unsigned a = 1; a < 256; ++a)
    {
        if (a % s.shards != s.shard) continue;
        c = Case(); c.op = "u8"; c.b.assign(1, char(a)); vm::runHere(c);
        for (unsigned b = 1; b < 256; ++b)
        {
            c.b.assign(1, char(a)); c.b.push_back(char(b)); vm::runHere(c);
            if (s.thorough) for (unsigned d = 1; d < 256; ++d) { c.b.resize(2); c.b.push_back(char(d)); vm::runHere(c); }
        }
    }
    for (size_t i = s.shard, k = al.size(), total = k * k * k * k; i < total; i += s.shards * (s.thorough ? 1 : 3))
    {
        c = Case(); c.op = "u8"; size_t v = i;
        for (unsigned j = 0; j < 4; ++j) { c.b.push_back(char(al[v % k])); v /= k; }
        vm::runHere(c); VM_COUNT("alphabet sequence");
    }
    for (unsigned hi = 0xD7F0; hi < 0xE010; ++hi)
        for (unsigned lo : { 0u, 0x41u, 0xD7FFu, 0xD800u, 0xDBFFu, 0xDC00u, 0xDD12u, 0xDFFFu, 0xE000u, 0xFFFFu })
            if (hi % s.shards == s.shard) { c = Case(); c.op = "u16"; c.w.assign(1, char16_t(hi)); if (lo) c.w.push_back(char16_t(lo)); vm::runHere(c); c.w = u"ab" + c.w + u"cd"; vm::runHere(c); }
    gen::texts8(rng, s.thorough ? 2000000 : 100000, [&](const std::string& t) { c = Case(); c.op = "u8"; c.b = t; vm::runHere(c); });
    gen::texts16(rng, s.thorough ? 800000 : 50000, [&](const std::u16string& t) { c = Case(); c.op = "u16"; c.w = t; vm::runHere(c); });
    gen::texts32(rng, s.thorough ? 800000 : 50000, [&](const std::u32string& t) { c = Case(); c.op = "u32"; c.d = t; vm::runHere(c); });
}
Case fuzzCase(const uint8_t* p, size_t n)
{
    Case c;
    unsigned k = n ? *p++ % 4 : 0; if (n) --n;
    if (k < 2) { c.op = "u8"; c.b = gen::fz8(p, n); }
    else if (k == 2) { c.op = "u16"; c.w = gen::fz16(p, n); }
    else { c.op = "u32"; c.d = gen::fz32(p, n); }
    return c;
}
