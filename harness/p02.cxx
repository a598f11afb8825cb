// P02: text that passes a validity check always re-encodes (and what is rejected does not)
#include "string.hxx"
#include "gen.hxx"
#include "ranges.hxx"
using namespace ansak; using vm::Case; using gen::Rng;
const char* const kProperty = "P02";

// accepted: what the check said; got: the conversion; want: every complete code point, encoded by the model
template <class S, class V>
static void relate(const Case& c, const char* what, bool accepted, const S& got, const S& want, const model::Text& t, V valid)
{
    if (accepted)
    {
        VM_COUNT("accepted, then converted");
        if (got != want) vm::fail(c, std::string(what) + ": accepted by the check but converted to [" + vm::hex(got) + "], not to all its code points [" + vm::hex(want) + "]");
        else if (!valid(got)) vm::fail(c, std::string(what) + ": the conversion of accepted text fails the check of its own encoding");
    }
    else if (t.tail == model::kNone)
    {
        VM_COUNT("rejected, then converted");
        if (!got.empty()) vm::fail(c, std::string(what) + ": rejected by the check but converted to [" + vm::hex(got) + "]");
    }
    else VM_COUNT("rejected with an incomplete end");
}

static bool v8(const utf8String& s) { return isUtf8(s) && isUtf8(s.c_str()); }
static bool v16(const utf16String& s) { return isUtf16(s) && isUtf16(s.c_str()); }
static bool v2(const ucs2String& s) { return isUcs2(s) && isUcs2(s.c_str()); }
static bool v4(const ucs4String& s) { return isUcs4(s) && isUcs4(s.c_str()); }
static std::u16string narrow(const std::u32string& s) { std::u16string r; for (char32_t c : s) r.push_back(char16_t(c)); return r; }

void checkCase(const Case& c)
{
    if (c.op == "u8")
    {
        model::Text t = model::dec8(c.b);
        const char* p = gen::guard().z(c.b);
        auto w2 = narrow(t.cps), w16 = model::enc16(t.cps);
        relate(c, "isUtf8(kUcs2)/toUcs2", isUtf8(p, kUcs2), toUcs2(p), w2, t, v2);
        relate(c, "isUtf8(kUtf16)/toUtf16", isUtf8(p, kUtf16), toUtf16(p), w16, t, v16);
        relate(c, "isUtf8(kUnicode)/toUtf16", isUtf8(p, kUnicode), toUtf16(p), w16, t, v16);
        relate(c, "isUtf8(kUcs4)/toUcs4", isUtf8(p, kUcs4), toUcs4(p), t.cps, t, v4);
        relate(c, "isUtf8/toUcs4", isUtf8(p), toUcs4(p), t.cps, t, v4);
        relate(c, "isUtf8(string, kUcs2)/toUcs2", isUtf8(c.b, kUcs2), toUcs2(c.b), w2, t, v2);
        relate(c, "isUtf8(string, kUtf16)/toUtf16", isUtf8(c.b, kUtf16), toUtf16(c.b), w16, t, v16);
        relate(c, "isUtf8(string, kUcs4)/toUcs4", isUtf8(c.b, kUcs4), toUcs4(c.b), t.cps, t, v4);
        if (isUtf8(p, kAscii) && !c.b.empty())
        {
            VM_COUNT("accepted as ASCII");
            relate(c, "isUtf8(kAscii)/toUcs2", true, toUcs2(p), w2, t, [](const ucs2String& s) { return isUcs2(s, kAscii); });
            relate(c, "isUtf8(kAscii)/toUtf16", true, toUtf16(p), w16, t, [](const utf16String& s) { return isUtf16(s, kAscii); });
            relate(c, "isUtf8(kAscii)/toUcs4", true, toUcs4(p), t.cps, t, [](const ucs4String& s) { return isUcs4(s, kAscii); });
        }
    }
    else if (c.op == "u16")
    {
        model::Text t = model::dec16(c.w);
        const char16_t* p = gen::guard().z(c.w);
        auto w8 = model::enc8(t.cps);
        relate(c, "isUtf16/toUtf8", isUtf16(p), toUtf8(p), w8, t, v8);
        relate(c, "isUtf16(kUtf8)/toUtf8", isUtf16(p, kUtf8), toUtf8(p), w8, t, v8);
        relate(c, "isUtf16(kUnicode)/toUtf8", isUtf16(p, kUnicode), toUtf8(p), w8, t, v8);
        relate(c, "isUtf16(kUcs4)/toUcs4", isUtf16(p, kUcs4), toUcs4(p), t.cps, t, v4);
        relate(c, "isUtf16(string, kUtf8)/toUtf8", isUtf16(c.w, kUtf8), toUtf8(c.w), w8, t, v8);
        relate(c, "isUtf16(string, kUcs4)/toUcs4", isUtf16(c.w, kUcs4), toUcs4(c.w), t.cps, t, v4);
        if (isUcs2(p, kUtf8) && !c.w.empty())
        {
            VM_COUNT("accepted as UCS-2");
            relate(c, "isUcs2(kUtf8)/toUtf8", true, toUtf8(p), w8, t, v8);
            relate(c, "isUcs2(kUcs4)/toUcs4", isUcs2(p, kUcs4), toUcs4(p), t.cps, t, v4);
        }
    }
    else if (c.op == "u32")
    {
        model::Text t = model::dec32(c.d);
        const char32_t* p = gen::guard().z(c.d);
        std::string w8 = model::allIn(t.cps, model::rUtf8) ? model::enc8(t.cps) : std::string();
        std::u16string w16 = model::allIn(t.cps, model::rUtf16) ? model::enc16(t.cps) : std::u16string(), w2 = model::allIn(t.cps, model::rUcs2) ? w16 : std::u16string();
        relate(c, "isUcs4(kUtf8)/toUtf8", isUcs4(p, kUtf8), toUtf8(p), w8, t, v8);
        relate(c, "isUcs4(kUcs2)/toUcs2", isUcs4(p, kUcs2), toUcs2(p), w2, t, v2);
        relate(c, "isUcs4(kUtf16)/toUtf16", isUcs4(p, kUtf16), toUtf16(p), w16, t, v16);
        relate(c, "isUcs4(kUnicode)/toUtf16", isUcs4(p, kUnicode), toUtf16(p), w16, t, v16);
        relate(c, "isUcs4(string, kUtf8)/toUtf8", isUcs4(c.d, kUtf8), toUtf8(c.d), w8, t, v8);
        relate(c, "isUcs4(string, kUcs2)/toUcs2", isUcs4(c.d, kUcs2), toUcs2(c.d), w2, t, v2);
        relate(c, "isUcs4(string, kUtf16)/toUtf16", isUcs4(c.d, kUtf16), toUtf16(c.d), w16, t, v16);
    }
}

void workload()
{
    auto& s = vm::st();
    Rng rng(s.seed * 1000 + s.shard);
    Case c;
    for (const char* op : { "u8", "u16", "u32" }) { c.op = op; vm::run(c); }
    // every code point alone (quick: astral ones thinned) in each encoding
    for (uint32_t v = 1; v < 0x200000; ++v)
    {
        if (v % s.shards != s.shard) continue;
        if (!s.thorough && v > 0x3000 && !(v >= 0xD700 && v < 0xE100) && v % 7 && (v & 0xFFFF) < 0xFFF0 && (v & 0xFFFF) > 16) continue;
        c = Case(); c.op = "u32"; c.d.assign(1, v); vm::runHere(c);
        if (v < 0x10000) { c = Case(); c.op = "u16"; c.w.assign(1, char16_t(v)); vm::runHere(c); }
        else if (v < 0x110000) { c = Case(); c.op = "u16"; model::put16(c.w, v); vm::runHere(c); }
        c = Case(); c.op = "u8"; model::put8(c.b, v); vm::runHere(c);   // surrogates included: malformed
        VM_COUNT("single code point");
    }
    // byte sequences of length 1, 2; alphabet sequences of 3, 4
    for (unsigned a = 1; a < 256; ++a)
    {
        if (a % s.shards != s.shard) continue;
        c = Case(); c.op = "u8"; c.b.assign(1, char(a)); vm::runHere(c);
        for (unsigned b = 1; b < 256; ++b) { c.b.assign(1, char(a)); c.b.push_back(char(b)); vm::runHere(c); }
    }
    const auto& al = gen::alpha8();
    for (size_t i = s.shard, k = al.size(), total = k * k * k * (s.thorough ? k : 1); i < total; i += s.shards)
    {
        c = Case(); c.op = "u8"; size_t v = i;
        for (unsigned j = 0; j < (s.thorough ? 4u : 3u); ++j) { c.b.push_back(char(al[v % k])); v /= k; }
        vm::runHere(c); VM_COUNT("alphabet sequence");
    }
    gen::texts8(rng, s.thorough ? 2000000 : 80000, [&](const std::string& t) { c = Case(); c.op = "u8"; c.b = t; vm::runHere(c); });
    gen::texts16(rng, s.thorough ? 800000 : 40000, [&](const std::u16string& t) { c = Case(); c.op = "u16"; c.w = t; vm::runHere(c); });
    gen::texts32(rng, s.thorough ? 800000 : 40000, [&](const std::u32string& t) { c = Case(); c.op = "u32"; c.d = t; vm::runHere(c); });
}
Case fuzzCase(const uint8_t* p, size_t n)
{
    Case c;
    unsigned k = n ? *p++ % 4 : 0; if (n) --n;
    if (k < 2) { c.op = "u8"; c.b = gen::fz8(p, n); }
    else if (k == 2) { c.op = "u16"; c.w = gen::fz16(p, n); }
    else { c.op = "u32"; c.d = gen::fz32(p, n); }
    return c;
}
