// P16: wide and TCHAR strings behave as UTF-16 where wchar_t has 16 bits
// Compiled with -fshort-wchar; P16_CFG: 0 plain, 1 WIN32 with _MBCS, 2 WIN32 with _UNICODE.
#include "shortwchar.hxx"
#include <string>
#if P16_CFG == 1
#define WIN32 1
#define _MBCS 1
#elif P16_CFG == 2
#define WIN32 1
#define _UNICODE 1
#define UNICODE 1
#endif
#include "string.hxx"
#undef WIN32
#include "gen.hxx"
#include "ranges.hxx"
using namespace ansak; using vm::Case; using gen::Rng;
const char* const kProperty = "P16";

static std::wstring wide(const std::u16string& s) { std::wstring w; for (char16_t v : s) w.push_back(wchar_t(v)); return w; }
static void yes(const Case& c, model::Verdict want, bool p, bool s, const char* what)
{
    if (want == model::vOpen) { VM_COUNT("verdict open"); return; }
    if (want == model::vTrue) VM_COUNT("accepted"); else VM_COUNT("rejected");
    if (p != (want == model::vTrue)) vm::fail(c, std::string(what) + " (pointer) answered " + vname(p));
    if (s != (want == model::vTrue)) vm::fail(c, std::string(what) + " (string) answered " + vname(s));
}
// want: all complete code points; alt: the same with the incomplete end kept
template <class S> void conv(const Case& c, const S& want, const S& alt, const S& p, const S& s, const char* what)
{
    if (want.empty()) VM_COUNT("no conversion expected"); else VM_COUNT("conversion expected");
    if (p != want && p != alt) vm::fail(c, std::string(what) + " (pointer) gave [" + vm::hex(p) + "], not [" + vm::hex(want) + "]");
    if (s != want && s != alt) vm::fail(c, std::string(what) + " (string) gave [" + vm::hex(s) + "], not [" + vm::hex(want) + "]");
}
static std::string ascii(const std::u32string& s) { std::string r; for (char32_t v : s) r.push_back(char(v)); return r; }

void checkCase(const Case& c)
{
    if (c.op == "w")
    {
        model::Text t = model::dec16(c.w);
        std::wstring w = wide(c.w); const wchar_t* p = gen::guard().z(w);
        yes(c, model::is16(t, model::rUtf8, model::anyChar), isUtf8(p), isUtf8(w), "isUtf8(wide)");
        yes(c, model::is16(t, model::rUtf16, model::anyChar), isUtf16(p), isUtf16(w), "isUtf16(wide)");
        yes(c, model::is16(t, model::rUcs2, model::anyChar), isUcs2(p), isUcs2(w), "isUcs2(wide)");
        yes(c, model::is16(t, model::rUcs4, model::anyChar), isUcs4(p), isUcs4(w), "isUcs4(wide)");
        std::string b = t.valid ? model::enc8(t.cps) : std::string();
        conv(c, b, b, toUtf8(p), toUtf8(w), "toUtf8(wide)");
        std::u32string d = t.valid ? t.cps : std::u32string();
        conv(c, d, d, toUcs4(p), toUcs4(w), "toUcs4(wide)");
        std::u16string u = t.valid ? model::enc16(t.cps) : std::u16string(), alt = t.valid ? c.w : u;
        conv(c, u, alt, toUtf16(p), toUtf16(w), "toUtf16(wide)");
        std::u16string u2 = t.valid && t.tail == model::kNone && model::allIn(t.cps, model::rUcs2) ? c.w : std::u16string();
        conv(c, u2, u2, toUcs2(p), toUcs2(w), "toUcs2(wide)");
        if (t.valid && t.tail == model::kNone && !c.w.empty())
        {
            VM_COUNT("round trip");
            if (toWstring(toUtf8(w)) != w || toWstring(toUtf16(w)) != w || toWstring(toUcs4(w)) != w) vm::fail(c, "a round trip from wide characters lost something");
        }
    }
    else if (c.op == "u8")
    {
        model::Text t = model::dec8(c.b); const char* p = gen::guard().z(c.b);
        model::Verdict v = model::is8(t, model::rUtf16, model::anyChar);
        std::wstring want; if (t.valid && model::allIn(t.cps, model::rUtf16)) want = wide(model::enc16(t.cps));
        bool judged = t.tail == model::kNone || !t.valid || v == model::vTrue;
        yes(c, v, isWstring(p), isWstring(c.b), "isWstring(UTF-8)");
        if (judged) conv(c, want, want, toWstring(p), toWstring(c.b), "toWstring(UTF-8)");
#if P16_CFG == 2
        yes(c, v, isTstring(p), isTstring(c.b), "isTstring(UTF-8)");
        if (judged) conv(c, want, want, toTstring(p), toTstring(c.b), "toTstring(UTF-8)");
#elif P16_CFG == 1
        bool a = t.valid && t.tail == model::kNone && model::allIn(t.cps, model::rAscii);
        yes(c, a ? model::vTrue : model::vFalse, isTstring(p), isTstring(c.b), "isTstring(UTF-8)");
        std::string n = a ? c.b : std::string();
        conv(c, n, n, toTstring(p), toTstring(c.b), "toTstring(UTF-8)");
#endif
#if P16_CFG
        yes(c, v, isUtf16(p), isUtf16(c.b), "isUtf16(char)");
        yes(c, model::is8(t, model::rUcs2, model::anyChar), isUcs2(p), isUcs2(c.b), "isUcs2(char)");
        yes(c, model::is8(t, model::rUcs4, model::anyChar), isUcs4(p), isUcs4(c.b), "isUcs4(char)");
        if (t.tail == model::kNone || !t.valid)
        {
            // to UTF-8 from UTF-8: as it is if well formed
            std::string same = t.valid ? c.b : std::string();
            conv(c, same, t.valid ? model::enc8(t.cps) : same, toUtf8(p), toUtf8(c.b), "toUtf8(char)");
        }
#endif
    }
    else if (c.op == "u16")
    {
        model::Text t = model::dec16(c.w); const char16_t* p = gen::guard().z(c.w);
        std::wstring want, alt; if (t.valid) { want = wide(model::enc16(t.cps)); alt = wide(c.w); }
        yes(c, t.valid ? model::vTrue : model::vFalse, isWstring(p), isWstring(c.w), "isWstring(UTF-16)");
        conv(c, want, alt, toWstring(p), toWstring(c.w), "toWstring(UTF-16)");
#if P16_CFG == 2
        yes(c, t.valid ? model::vTrue : model::vFalse, isTstring(p), isTstring(c.w), "isTstring(UTF-16)");
        conv(c, want, alt, toTstring(p), toTstring(c.w), "toTstring(UTF-16)");
#elif P16_CFG == 1
        bool a = t.valid && t.tail == model::kNone && model::allIn(t.cps, model::rAscii);
        yes(c, a ? model::vTrue : model::vFalse, isTstring(p), isTstring(c.w), "isTstring(UTF-16)");
        std::string n = a ? ascii(t.cps) : std::string();
        conv(c, n, n, toTstring(p), toTstring(c.w), "toTstring(UTF-16)");
#endif
        if (t.valid && t.tail == model::kNone) { VM_COUNT("round trip"); if (toUtf16(toWstring(p)) != c.w) vm::fail(c, "UTF-16 to wide and back lost something"); }
    }
    else if (c.op == "u32")
    {
        bool ok = model::allIn(c.d, model::rUtf16); const char32_t* p = gen::guard().z(c.d);
        std::wstring want; if (ok) want = wide(model::enc16(c.d));
        yes(c, ok ? model::vTrue : model::vFalse, isWstring(p), isWstring(c.d), "isWstring(UCS-4)");
        conv(c, want, want, toWstring(p), toWstring(c.d), "toWstring(UCS-4)");
#if P16_CFG == 2
        yes(c, ok ? model::vTrue : model::vFalse, isTstring(p), isTstring(c.d), "isTstring(UCS-4)");
        conv(c, want, want, toTstring(p), toTstring(c.d), "toTstring(UCS-4)");
#elif P16_CFG == 1
        bool a = model::allIn(c.d, model::rAscii);
        yes(c, a ? model::vTrue : model::vFalse, isTstring(p), isTstring(c.d), "isTstring(UCS-4)");
        std::string n = a ? ascii(c.d) : std::string();
        conv(c, n, n, toTstring(p), toTstring(c.d), "toTstring(UCS-4)");
#endif
    }
    else if (c.op == "null")
    {
        VM_COUNT("null pointers");
        const wchar_t* w = nullptr; const char* a = nullptr; const char16_t* b = nullptr; const char32_t* d = nullptr;
        if (!isUtf8(w) || !isUtf16(w) || !isUcs2(w) || !isUcs4(w) || !isWstring(a) || !isWstring(b) || !isWstring(d)) vm::fail(c, "a null pointer was rejected");
        if (!toUtf8(w).empty() || !toUtf16(w).empty() || !toUcs2(w).empty() || !toUcs4(w).empty() || !toWstring(a).empty() || !toWstring(b).empty() || !toWstring(d).empty()) vm::fail(c, "a null pointer converted to something");
#if P16_CFG
        if (!isUtf16(a) || !isUcs2(a) || !isUcs4(a) || !isTstring(a) || !isTstring(b) || !isTstring(d)) vm::fail(c, "a null pointer was rejected");
        if (!toUtf8(a).empty() || !toTstring(a).empty() || !toTstring(b).empty() || !toTstring(d).empty()) vm::fail(c, "a null pointer converted to something");
#endif
    }
}
void workload()
{
    auto& s = vm::st();
    Rng rng(s.seed * 1000 + s.shard);
    Case c; c.op = "null"; vm::runHere(c);
    if (s.limit)        // a sample, for slow instrumentation
    {
        for (size_t i = 0; i < s.limit; ++i)
        {
            c = Case(); c.op = "u8"; c.b = gen::randText8(rng); vm::runHere(c);
            c = Case(); c.op = i & 1 ? "w" : "u16"; c.w = gen::randText16(rng); vm::runHere(c);
            c = Case(); c.op = "u32"; c.d = gen::randText32(rng); vm::runHere(c);
            VM_COUNT("random texts under instrumentation");
        }
        return;
    }
    for (uint32_t v = 1 + s.shard; v < 0x110000 + 0x1000; v += s.shards)
    {
        c = Case(); c.op = "u32"; c.d = { char32_t(v) }; vm::runHere(c);
        if (v < 0x10000) { c = Case(); c.op = "w"; c.w = { char16_t(v) }; vm::runHere(c); c.w.push_back(u'x'); vm::runHere(c); c.op = "u16"; vm::runHere(c); c.w.pop_back(); vm::runHere(c); }
        if (model::isSur(v)) continue;
        c = Case(); c.op = "u8"; model::put8(c.b, v); vm::runHere(c);
        if (v < 0x110000) { c = Case(); c.op = "w"; model::put16(c.w, v); vm::runHere(c); c.op = "u16"; vm::runHere(c); }
        VM_COUNT("every code point");
    }
    for (uint32_t h = 0xD800; h < 0xE000; ++h) { if (!vm::myTurn()) continue; for (uint32_t l : { 0xD7FFu, 0xD800u, 0xDBFFu, 0xDC00u, 0xDFFFu, 0xE000u, 0x41u }) for (const char* op : { "w", "u16" }) { c = Case(); c.op = op; c.w = { char16_t(h), char16_t(l) }; vm::runHere(c); } VM_COUNT("surrogate followed by edges"); }
    size_t n = s.thorough ? 1500000 : 60000;
    gen::texts8(rng, n, [&](const std::string& t) { c = Case(); c.op = "u8"; c.b = t; vm::runHere(c); }, s.thorough ? 14 : 9);
    gen::texts16(rng, n, [&](const std::u16string& t) { c = Case(); c.w = t; c.op = "w"; vm::runHere(c); c.op = "u16"; vm::runHere(c); }, s.thorough ? 14 : 9);
    gen::texts32(rng, n, [&](const std::u32string& t) { c = Case(); c.op = "u32"; c.d = t; vm::runHere(c); }, s.thorough ? 14 : 9);
}
Case fuzzCase(const uint8_t* p, size_t n)
{
    Case c; unsigned k = n ? *p % 4 : 0; if (n) { ++p; --n; }
    if (k == 0) { c.op = "u8"; c.b = gen::fz8(p, n); }
    else if (k == 1) { c.op = "u16"; c.w = gen::fz16(p, n); }
    else if (k == 2) { c.op = "w"; c.w = gen::fz16(p, n); }
    else { c.op = "u32"; c.d = gen::fz32(p, n); }
    return c;
}
