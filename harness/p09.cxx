// P09: character classes match the configured Unicode version
#include "string.hxx"
#include "gen.hxx"
#include "ranges.hxx"
using namespace ansak; using vm::Case; using gen::Rng;
const char* const kProperty = "P09";
static const char* kClass[] = { "assigned", "private", "control", "whitespace" };

struct Preds { EncodingCheckPredicate yes[4], no[4]; Preds() { for (int i = 0; i < 4; ++i) { yes[i] = validIf(kE[i]); no[i] = validIfNot(kE[i]); } } };
static const Preds& P() { static Preds p; return p; }

// every way the class of one value can be observed
static bool one(const Case* c, uint32_t v, bool texts)
{
    unsigned m = model::classes(v, vm::st().version);
    bool good = true;
    auto say = [&](int i, const char* how) { good = false; if (c) vm::failKey("class:" + std::to_string(vm::st().version) + ":" + kClass[i], *c, std::string(how) + ": value " + vm::hex(std::u32string(1, char32_t(v))) + " is reported " + (m >> i & 1 ? "not " : "") + kClass[i]); };
    for (int i = 0; i < 4; ++i)
    {
        bool w = (m >> i) & 1;
        if (P().yes[i](char32_t(v)) != w || P().no[i](char32_t(v)) == w) say(i, "32-bit character");
        if (v < 0x10000 && (P().yes[i](char16_t(v)) != w || P().no[i](char16_t(v)) == w)) say(i, "16-bit character");
        if (v < 0x100 && (P().yes[i](char(v)) != w || P().no[i](char(v)) == w)) say(i, "8-bit character");
    }
    if (texts && v && !model::isSur(v))
    {
        char32_t d[2] = { char32_t(v), 0 };
        std::string b; std::u16string u;
        if (v <= 0x7FFFFFFF) model::put8(b, v);
        if (v <= 0x10FFFF) model::put16(u, v);
        for (int i = 0; i < 4; ++i)
        {
            bool w = (m >> i) & 1;
            if (isUcs4(d, kUcs4, P().yes[i]) != w) say(i, "UCS-4 text");
            if (!b.empty() && isUtf8(b.c_str(), kUtf8, P().yes[i]) != w) say(i, "UTF-8 text");
            if (!u.empty() && isUtf16(u.c_str(), kUtf16, P().yes[i]) != w) say(i, "UTF-16 text");
            if (u.size() == 1 && isUcs2(u.c_str(), kUcs2, P().yes[i]) != w) say(i, "UCS-2 text");
        }
    }
    return good;
}
void checkCase(const Case& c)
{
    if (c.op == "version")
    {
        std::string want = std::to_string(vm::st().version) + ".0.0", got = getUnicodeVersionSupported();
        VM_COUNT("version asked");
        if (got != want) vm::fail(c, "reported Unicode version \"" + got + "\", not " + want);
        return;
    }
    for (char32_t v : c.d) one(&c, v, true);
}
void workload()
{
    auto& s = vm::st();
    Rng rng(s.seed * 1000 + s.shard);
    Case c; c.op = "version"; vm::runHere(c);
    Case cur; cur.op = "value"; cur.d.assign(1, 0); s.cur = &cur;
    auto sweep = [&](uint32_t v, bool texts) { cur.d[0] = v; vm::fastEval(true); if (!one(nullptr, v, texts)) vm::runHere(cur); };
    for (uint32_t v = s.shard; v < 0x110000; v += s.shards) { sweep(v, true); VM_COUNT("code point, all classes and forms"); }
    for (uint32_t h = 0x11; h < 0x10000; ++h)
    {
        if (h % s.shards != s.shard) continue;
        for (uint32_t l : { 0u, 9u, 0x20u, 0x41u, 0x7Fu, 0x85u, 0xA0u, 0xFFu, 0x1680u, 0x2000u, 0x2028u, 0x3000u, 0x4E00u, 0xD800u, 0xDFFFu, 0xE000u, 0xF8FFu, 0xFFFDu, 0xFFFFu, unsigned(rng.below(0x10000)), unsigned(rng.below(0x10000)) })
            sweep(h << 16 | l, false);
        VM_COUNT("64K block beyond 10FFFF, 21 values");
    }
    for (uint32_t v : gen::edge32()) sweep(v, true);
    if (s.thorough && (s.version == 16 || s.version == 7))
    {
        // every 32-bit value
        for (uint64_t v = 0x110000 + s.shard; v < 0x100000000ull; v += s.shards)
        {
            bool any = false;
            for (int i = 0; i < 4; ++i) any |= P().yes[i](char32_t(v));
            if (any) sweep(uint32_t(v), true);
            ++s.evaluations; ++s.heart; ++s.enumerated;
        }
        VM_COUNT("shard of all 32-bit values");
    }
    s.cur = nullptr;
    c = Case(); c.op = "version"; vm::runHere(c);
}
Case fuzzCase(const uint8_t* p, size_t n) { Case c; c.op = "value"; c.d = gen::fz32(p, n); return c; }
