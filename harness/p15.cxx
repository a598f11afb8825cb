// P15: wide strings behave as UCS-4 where wchar_t has 32 bits
#include "string.hxx"
#include "gen.hxx"
#include "ranges.hxx"
using namespace ansak; using vm::Case; using gen::Rng;
static_assert(sizeof(wchar_t) == 4, "this check is for 32-bit wide characters");
const char* const kProperty = "P15";

static std::wstring widen(const std::u32string& d) { std::wstring w; for (char32_t v : d) w.push_back(wchar_t(v)); return w; }
static std::u16string narrow(const std::u32string& s) { std::u16string r; for (char32_t v : s) r.push_back(char16_t(v)); return r; }
static void yes(const Case& c, bool want, bool p, bool s, const char* what)
{
    if (want) VM_COUNT("accepted"); else VM_COUNT("rejected");
    if (p != want) vm::fail(c, std::string(what) + " (pointer) answered " + vname(p));
    if (s != want) vm::fail(c, std::string(what) + " (string) answered " + vname(s));
}
template <class S> void conv(const Case& c, const S& want, const S& p, const S& s, const char* what)
{
    if (want.empty()) VM_COUNT("no conversion expected"); else VM_COUNT("conversion expected");
    if (p != want) vm::fail(c, std::string(what) + " (pointer) gave [" + vm::hex(p) + "], not [" + vm::hex(want) + "]");
    if (s != want) vm::fail(c, std::string(what) + " (string) gave [" + vm::hex(s) + "], not [" + vm::hex(want) + "]");
}
void checkCase(const Case& c)
{
    if (c.op == "w")
    {
        std::wstring w = widen(c.d); const wchar_t* p = gen::guard().z(w);
        bool uni = model::allIn(c.d, model::rUnicode), bmp = uni && model::allIn(c.d, model::rUcs2), sur = false;
        for (char32_t v : c.d) sur |= model::isSur(v);
        yes(c, uni, isUtf8(p), isUtf8(w), "isUtf8(wide)");
        yes(c, uni, isUtf16(p), isUtf16(w), "isUtf16(wide)");
        yes(c, uni, isUcs4(p), isUcs4(w), "isUcs4(wide)");
        yes(c, bmp, isUcs2(p), isUcs2(w), "isUcs2(wide)");
        if (uni || sur)     // values above 10FFFF in UTF-8 and UCS-4 are not judged
        {
            conv(c, uni ? model::enc8(c.d) : std::string(), toUtf8(p), toUtf8(w), "toUtf8(wide)");
            conv(c, uni ? c.d : std::u32string(), toUcs4(p), toUcs4(w), "toUcs4(wide)");
        }
        conv(c, uni ? model::enc16(c.d) : std::u16string(), toUtf16(p), toUtf16(w), "toUtf16(wide)");
        conv(c, bmp ? narrow(c.d) : std::u16string(), toUcs2(p), toUcs2(w), "toUcs2(wide)");
        // and back
        if (uni)
        {
            VM_COUNT("round trip");
            if (toWstring(toUtf8(w)) != w || toWstring(toUtf16(w)) != w || toWstring(toUcs4(w)) != w) vm::fail(c, "a round trip from wide characters lost something");
        }
        // the other fixed-width text of the same values
        const char32_t* q = gen::guard().z(c.d);
        yes(c, uni, isWstring(q), isWstring(c.d), "isWstring(UCS-4)");
        conv(c, uni ? w : std::wstring(), toWstring(q), toWstring(c.d), "toWstring(UCS-4)");
    }
    else if (c.op == "u8")
    {
        model::Text t = model::dec8(c.b); const char* p = gen::guard().z(c.b);
        model::Verdict v = model::is8(t, model::rUtf16, model::anyChar);
        if (v != model::vOpen) yes(c, v == model::vTrue, isWstring(p), isWstring(c.b), "isWstring(UTF-8)");
        if (t.valid && !model::allIn(t.cps, model::rUnicode)) { VM_COUNT("not judged"); return; }
        if (t.valid && (t.tail == model::kDoomed || (t.tail == model::kPartial && t.lo > 0x10FFFF) || t.lead >= 0xF5)) { VM_COUNT("not judged"); return; }
        conv(c, t.valid ? widen(t.cps) : std::wstring(), toWstring(p), toWstring(c.b), "toWstring(UTF-8)");
        if (t.valid && t.tail == model::kNone && !c.b.empty()) { VM_COUNT("round trip"); std::string back = toUtf8(toWstring(p)); if (back != model::enc8(t.cps)) vm::fail(c, "UTF-8 to wide and back gave [" + vm::hex(back) + "]"); }
    }
    else if (c.op == "u16")
    {
        model::Text t = model::dec16(c.w); const char16_t* p = gen::guard().z(c.w);
        yes(c, t.valid, isWstring(p), isWstring(c.w), "isWstring(UTF-16)");
        conv(c, t.valid ? widen(t.cps) : std::wstring(), toWstring(p), toWstring(c.w), "toWstring(UTF-16)");
        if (t.valid && t.tail == model::kNone) { VM_COUNT("round trip"); if (toUtf16(toWstring(p)) != c.w) vm::fail(c, "UTF-16 to wide and back lost something"); }
    }
    else if (c.op == "null")
    {
        VM_COUNT("null pointers");
        const wchar_t* w = nullptr; const char* a = nullptr; const char16_t* b = nullptr; const char32_t* d = nullptr;
        if (!isUtf8(w) || !isUtf16(w) || !isUcs2(w) || !isUcs4(w) || !isWstring(a) || !isWstring(b) || !isWstring(d)) vm::fail(c, "a null pointer was rejected");
        if (!toUtf8(w).empty() || !toUtf16(w).empty() || !toUcs2(w).empty() || !toUcs4(w).empty() || !toWstring(a).empty() || !toWstring(b).empty() || !toWstring(d).empty()) vm::fail(c, "a null pointer converted to something");
    }
}
void workload()
{
    auto& s = vm::st();
    Rng rng(s.seed * 1000 + s.shard);
    Case c; c.op = "null"; vm::runHere(c);
    for (uint32_t v = 1 + s.shard; v < 0x110000 + 0x10000; v += s.shards)
    {
        c = Case(); c.op = "w"; c.d.assign(1, v); vm::runHere(c);
        c.d = { U'a', char32_t(v), U'\u20ac' }; vm::runHere(c);
        if (model::isSur(v)) { c = Case(); c.op = "u16"; c.w = { char16_t(v), char16_t(0xDC00 + rng.below(0x400)) }; vm::runHere(c); c.w.push_back('x'); vm::runHere(c); continue; }
        c = Case(); c.op = "u8"; model::put8(c.b, v); vm::runHere(c);
        if (v < 0x110000) { c = Case(); c.op = "u16"; model::put16(c.w, v); vm::runHere(c); }
        VM_COUNT("every code point");
    }
    size_t n = s.thorough ? 2000000 : 80000;
    gen::texts8(rng, n, [&](const std::string& t) { c = Case(); c.op = "u8"; c.b = t; vm::runHere(c); }, s.thorough ? 14 : 11);
    gen::texts16(rng, n, [&](const std::u16string& t) { c = Case(); c.op = "u16"; c.w = t; vm::runHere(c); }, s.thorough ? 14 : 11);
    gen::texts32(rng, n, [&](const std::u32string& t) { c = Case(); c.op = "w"; c.d = t; vm::runHere(c); }, s.thorough ? 14 : 11);
}
Case fuzzCase(const uint8_t* p, size_t n)
{
    Case c; unsigned k = n ? *p % 3 : 0; if (n) { ++p; --n; }
    if (k == 0) { c.op = "u8"; c.b = gen::fz8(p, n); }
    else if (k == 1) { c.op = "u16"; c.w = gen::fz16(p, n); }
    else { c.op = "w"; c.d = gen::fz32(p, n); }
    return c;
}
