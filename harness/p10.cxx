// P10: lower-casing follows the configured Unicode version for every code point
#include "string.hxx"
#include "gen.hxx"
#include "ranges.hxx"
using namespace ansak; using vm::Case; using gen::Rng;
const char* const kProperty = "P10";

static std::string hx(uint32_t v) { char t[16]; snprintf(t, sizeof t, "%04X", v); return t; }
static void wrong(const Case& c, uint32_t v, uint32_t got, const std::string& how)
{
    int ver = vm::st().version;
    // the key names the code point, and whether it was left alone: only that is a known finding
    uint32_t want = model::lower(v, ver);
    std::string kind = got == v ? "unmapped" : (want == v ? "mapped+" + hx(got - v) : "mapped-to-" + hx(got));
    vm::failKey("lower:" + kind + ":" + std::to_string(ver) + ":" + hx(v), c, how + ": U+" + hx(v) + " became U+" + hx(got) + ", not U+" + hx(want));
}
// lower-case a text and compare position by position
static void compare(const Case& c, const std::u32string& src, const std::u32string& got, const std::string& how)
{
    if (got.size() != src.size()) { vm::fail(c, how + ": " + std::to_string(src.size()) + " code points became " + std::to_string(got.size())); return; }
    for (size_t i = 0; i < src.size(); ++i)
        if (uint32_t(got[i]) != model::lower(src[i], vm::st().version)) wrong(c, src[i], got[i], how);
}
void checkCase(const Case& c)
{
    if (c.d.empty()) return;
    const char* lang = c.s.empty() ? nullptr : c.s.c_str();
    compare(c, c.d, toLower(c.d, lang), "UCS-4 text");
    VM_COUNT("text lowered");
    if (model::allIn(c.d, model::rUnicode))
    {
        model::Text t = model::dec8(toLower(model::enc8(c.d), lang));
        if (!t.valid || t.tail != model::kNone) vm::fail(c, "lower-casing valid UTF-8 gave malformed UTF-8");
        else compare(c, c.d, t.cps, "UTF-8 text");
        t = model::dec16(toLower(model::enc16(c.d), lang));
        if (!t.valid || t.tail != model::kNone) vm::fail(c, "lower-casing valid UTF-16 gave malformed UTF-16");
        else compare(c, c.d, t.cps, "UTF-16 text");
        VM_COUNT("text lowered in three encodings");
    }
}
void workload()
{
    auto& s = vm::st();
    Rng rng(s.seed * 1000 + s.shard + 31 * s.version);
    Case c; c.op = "text";
    // every code point (and the surrogates, in UCS-4) alone
    c.d.assign(1, 0);
    for (uint32_t v = 1 + s.shard; v < 0x110000; v += s.shards) { c.d[0] = v; vm::runHere(c); VM_COUNT("every code point alone"); }
    // every code point in long shuffled texts, twice, so every position and neighbour differs
    std::vector<uint32_t> all; for (uint32_t v = 1 + s.shard; v < 0x110000; v += s.shards) if (!model::isSur(v)) all.push_back(v);
    for (int round = 0; round < (s.thorough ? 20 : 2); ++round)
    {
        for (size_t i = all.size(); i > 1; --i) std::swap(all[i - 1], all[rng.below(i)]);
        for (size_t i = 0; i < all.size();)
        {
            size_t k = 1 + (rng.chance(1, 4) ? rng.below(3000) : rng.below(40)); c.d.clear();
            for (size_t j = 0; j < k && i < all.size(); ++j) c.d.push_back(all[i++]);
            vm::runHere(c);
        }
        VM_COUNT("shuffle of this shard's code points");
    }
    // cased letters next to every cased letter's neighbourhood, in runs and around block sizes
    size_t nl = sizeof model::kLower / sizeof model::kLower[0];
    for (size_t i = 0; i < nl; ++i)
    {
        if (!vm::myTurn()) continue;
        uint32_t u = model::kLower[i][0], l = model::kLower[i][1];
        c.d.assign({ char32_t(u), char32_t(u), char32_t(l), U'A', char32_t(u), U'\u03A3', char32_t(u), U'\u0307', char32_t(u), U'I', U'\u0307', char32_t(u) }); vm::runHere(c);
        c.d.assign(rng.below(70), char32_t(rng.chance(1, 2) ? U'x' : u)); c.d.push_back(u); c.d.push_back(l); vm::runHere(c);
        VM_COUNT("cased letter in context");
    }
    for (size_t len : gen::padLens(s.thorough, s.thorough ? 16 : 11))
        for (uint32_t u : { 0x41u, 0x5Au, 0xC0u, 0x130u, 0x391u, 0x3A3u, 0x410u, 0x10A0u, 0x1E9Eu, 0x1F88u, 0x212Au, 0x2126u, 0xA640u, 0xFF21u, 0x10400u, 0x118A0u, 0x1E900u })
        {
            if (!vm::myTurn()) continue;
            c.d.assign(len, char32_t(rng.chance(1, 2) ? U'a' : u)); c.d.push_back(u); vm::runHere(c);
            c.d.append(rng.below(9), U'q'); vm::runHere(c);
            VM_COUNT("letter at offset");
        }
    // 32-bit values beyond Unicode, in UCS-4 only
    for (uint32_t h = 0x11; h < 0x10000; ++h)
    {
        if (h % s.shards != s.shard) continue;
        c.d.clear();
        for (uint32_t l : { 0x41u, 0x49u, 0x5Au, 0xC0u, 0x130u, 0x391u, 0x410u, 0x1E00u, 0x10A0u, 0x2C00u, 0xA640u, 0xFF21u, 0x0400u, 0xD800u, unsigned(rng.below(0x10000)) }) c.d.push_back(h << 16 | l);
        vm::runHere(c);
        VM_COUNT("64K block beyond 10FFFF");
    }
    gen::combos(gen::kUnicode, [&](const std::u32string& t) { c.d = t; vm::runHere(c); });
    for (size_t len : gen::freshLong(300000)) if (vm::myTurn()) { c.d.assign(len, U'R'); vm::runHere(c); }
    size_t n = s.thorough ? 1000000 : 40000;
    for (size_t i = 0; i < n; ++i) { c.d = gen::randText(rng, rng.chance(1, 4) ? gen::kAny32 : gen::kUnicode); c.s = rng.chance(1, 4) ? "en" : ""; vm::runHere(c); VM_COUNT("random text"); }
    c.s.clear();
    for (size_t i = 0; i < (s.thorough ? 30u : 2u); ++i) { c.d = gen::longMix(rng, i % 2 ? gen::kAny32 : gen::kUnicode); vm::runHere(c); c.d.assign(66000 + rng.below(9000), U'R'); for (int q = 0; q < 500; ++q) c.d[rng.below(c.d.size())] = gen::randCp(rng, gen::kUnicode); vm::runHere(c); VM_COUNT("very long text"); }
    if (s.thorough && s.version == 16)
    {
        // every 32-bit value
        for (uint64_t v = 0x110000 + uint64_t(s.shard) * 4096; v < 0x100000000ull; v += uint64_t(s.shards) * 4096)
        {
            c.d.clear(); for (uint64_t k = v; k < v + 4096 && k < 0x100000000ull; ++k) c.d.push_back(char32_t(k));
            vm::runHere(c); s.evaluations += 4095;
        }
        VM_COUNT("shard of all 32-bit values");
    }
}
Case fuzzCase(const uint8_t* p, size_t n) { Case c; c.op = "text"; c.d = gen::fz32(p, n); if (n & 1) for (auto& v : c.d) { v &= 0x1FFFF; if (!v || model::isSur(v)) v = 'Q'; } return c; }
