// P07: code point counts are right in every encoding
#include "string.hxx"
#include "gen.hxx"
#include "ranges.hxx"
using namespace ansak; using vm::Case; using gen::Rng;
const char* const kProperty = "P07";

// judge one answer. which: "utf8:nul", ...
static void judge(const Case& c, const model::Text& t, unsigned got, const std::string& which, bool anyValue32)
{
    unsigned k = unsigned(t.cps.size());
    bool uni = model::allIn(t.cps, model::rUnicode);
    if (!t.valid || (!uni && !anyValue32)) { VM_COUNT("count of malformed text"); if (got != 0) vm::fail(c, which + ": malformed text counted " + std::to_string(got)); return; }
    if (!uni) { VM_COUNT("count with values above 10FFFF in UCS-4"); if (got != 0 && got != k) vm::fail(c, which + ": counted " + std::to_string(got) + " of " + std::to_string(k)); return; }
    if (t.tail == model::kNone) { VM_COUNT("count of valid text"); if (got != k) vm::fail(c, which + ": counted " + std::to_string(got) + " of " + std::to_string(k)); return; }
    bool open = t.tail == model::kDoomed || t.lo > 0x10FFFF || t.lead >= 0xF5;
    if (open) { VM_COUNT("count before an end no Unicode text can have"); if (got != 0 && got != k && got + 1 != k) vm::fail(c, which + ": counted " + std::to_string(got) + " of " + std::to_string(k) + " before a broken end"); return; }
    VM_COUNT("count before an incomplete end");
    if (got == k) return;
    if (k && got == k - 1) { vm::failKey("unicodeLength:" + which + ":incomplete-tail:k-1", c, which + ": counted " + std::to_string(got) + " of " + std::to_string(k) + " before an incomplete end"); return; }
    vm::fail(c, which + ": counted " + std::to_string(got) + " of " + std::to_string(k) + " before an incomplete end");
}

static void all(const Case& c, const std::string& s)
{
    model::Text t = model::dec8(s);
    judge(c, t, unicodeLength(gen::guard().z(s)), "utf8:nul", false);
    judge(c, t, unicodeLength(s), "utf8:nul", false);
    if (!s.empty()) judge(c, t, unicodeLength(gen::guard().bare(s.data(), s.size()), unsigned(s.size())), "utf8:length", false);
}
static void all(const Case& c, const std::u16string& s)
{
    model::Text t = model::dec16(s);
    judge(c, t, unicodeLength(gen::guard().z(s)), "utf16:nul", false);
    judge(c, t, unicodeLength(s), "utf16:nul", false);
    if (!s.empty()) judge(c, t, unicodeLength(gen::guard().bare(s.data(), s.size()), unsigned(s.size())), "utf16:length", false);
}
static void all(const Case& c, const std::u32string& s)
{
    model::Text t = model::dec32(s);
    judge(c, t, unicodeLength(gen::guard().z(s)), "ucs4:nul", true);
    judge(c, t, unicodeLength(s), "ucs4:nul", true);
    if (!s.empty()) judge(c, t, unicodeLength(gen::guard().bare(s.data(), s.size()), unsigned(s.size())), "ucs4:length", true);
}
// the same text in every encoding, as the library converts it
static void across(const Case& c, const model::Text& t)
{
    if (!t.valid || t.tail != model::kNone || !model::allIn(t.cps, model::rUnicode) || t.cps.empty()) return;
    VM_COUNT("same count in three encodings");
    size_t k = t.cps.size();
    std::string a = model::enc8(t.cps); std::u16string b = model::enc16(t.cps);
    if (unicodeLength(a) != k || unicodeLength(b) != k || unicodeLength(t.cps) != k || toUcs4(a).size() != k || toUcs4(b).size() != k ||
        unicodeLength(toUtf16(a)) != k || unicodeLength(toUtf8(b)) != k || unicodeLength(toUtf8(t.cps)) != k || unicodeLength(toUtf16(t.cps)) != k)
        vm::fail(c, "the counts of one text in its encodings differ from " + std::to_string(k));
}
// n: how many units; texts too long for a signed counter
template <class C> static void huge(const Case& c, const std::basic_string<C>& pattern, size_t per, const std::basic_string<C>& bad, const char* what)
{
    size_t n = size_t(c.n[0]) / pattern.size() * pattern.size();
    unsigned want = unsigned(n / pattern.size() * per);
    auto say = [&](const char* form, const C* p, unsigned bound, unsigned w) {
        gen::Huge<C>::judge([&] { unsigned got = unicodeLength(p, bound); VM_COUNT("count of billions of units"); if (got != w) vm::fail(c, std::string(what) + " of " + std::to_string(n) + " units, " + form + ": counted " + std::to_string(got) + ", not " + std::to_string(w)); });
    };
    { gen::Huge<C> h(pattern, n, true); say("terminated", h.text(), 0, want); h.endWith(bad); say("malformed at its end", h.text(), 0, 0); }
    { gen::Huge<C> h(pattern, n, false); say("with its length", h.text(), unsigned(n), want); }
}
void checkCase(const Case& c)
{
    if (c.op == "huge8") { huge<char>(c, c.b, size_t(c.n[1]), "\xff", "UTF-8"); return; }
    if (c.op == "huge16") { huge<char16_t>(c, c.w, size_t(c.n[1]), std::u16string(2, char16_t(0xDC00)), "UTF-16"); return; }
    if (c.op == "huge32") { huge<char32_t>(c, c.d, size_t(c.n[1]), std::u32string(1, char32_t(0xDC00)), "UCS-4"); return; }
    if (c.op == "u8") { all(c, c.b); across(c, model::dec8(c.b)); }
    else if (c.op == "u16") { all(c, c.w); across(c, model::dec16(c.w)); }
    else if (c.op == "u32") { all(c, c.d); across(c, model::dec32(c.d)); }
    else if (c.op == "null")
    {
        VM_COUNT("null pointers");
        if (unicodeLength(static_cast<const char*>(nullptr)) || unicodeLength(static_cast<const char16_t*>(nullptr)) || unicodeLength(static_cast<const char32_t*>(nullptr)) ||
            unicodeLength(static_cast<const char*>(nullptr), 5) || unicodeLength(static_cast<const char16_t*>(nullptr), 5) || unicodeLength(static_cast<const char32_t*>(nullptr), 5) ||
            unicodeLength("") || unicodeLength(u"") || unicodeLength(U"") || unicodeLength(std::string()) || unicodeLength(std::u16string()) || unicodeLength(std::u32string()))
            vm::fail(c, "a null pointer or empty text has a length");
    }
}
void workload()
{
    auto& s = vm::st();
    Rng rng(s.seed * 1000 + s.shard);
    Case c; c.op = "null"; vm::runHere(c);
    c.op = "u8";
    for (unsigned a = 1; a < 256; ++a)
    {
        if (!vm::myTurn()) continue;
        c.b.assign(1, char(a)); vm::runHere(c);
        for (unsigned b = 1; b < 256; ++b)
        {
            c.b.assign({ char(a), char(b) }); vm::runHere(c);
            if (a >= 0xC0 || s.thorough) for (unsigned d = 1; d < 256; ++d) { c.b.assign({ char(a), char(b), char(d) }); vm::runHere(c); }
        }
        VM_COUNT("all continuations of a first byte");
    }
    for (uint32_t v = 1 + s.shard; v < 0x110000; v += s.shards)
    {
        c = Case(); c.op = "u32"; c.d = { U'a', char32_t(v), U'b' }; vm::runHere(c);
        if (model::isSur(v)) continue;
        c = Case(); c.op = "u8"; model::put8(c.b, v); model::put8(c.b, 'z'); model::put8(c.b, v); vm::runHere(c);
        VM_COUNT("every code point");
    }
    for (uint32_t h = 0xD800; h < 0xE000; h += 1) { if (!vm::myTurn()) continue; for (uint32_t l : { 0xD7FFu, 0xD800u, 0xDBFFu, 0xDC00u, 0xDD55u, 0xDFFFu, 0xE000u, 0x41u, 0xFFFFu, 0xD800u + unsigned(rng.below(0x800)) }) { c = Case(); c.op = "u16"; c.w = { u'x', char16_t(h), char16_t(l) }; vm::runHere(c); c.w.push_back(u'y'); vm::runHere(c); } VM_COUNT("surrogate followed by edges"); }
    size_t n = s.thorough ? 3000000 : 100000;
    gen::texts8(rng, n, [&](const std::string& t) { c = Case(); c.op = "u8"; c.b = t; vm::runHere(c); });
    gen::texts16(rng, n, [&](const std::u16string& t) { c = Case(); c.op = "u16"; c.w = t; vm::runHere(c); });
    gen::texts32(rng, n, [&](const std::u32string& t) { c = Case(); c.op = "u32"; c.d = t; vm::runHere(c); });
    // more units than a signed 32-bit counter can hold (thorough: up to all that a length can say)
    for (long long units : { 0x80000005ll, 0xFFFFFFFFll })
    {
        if (units > 0x80000005ll && !s.thorough) break;
        auto go = [&](const char* op, long long per) { c.op = op; c.n = { units, per }; if (vm::myTurn()) vm::runHere(c); };
        c = Case(); c.b = "x"; go("huge8", 1);
        c = Case(); c.b = "\xed\xa0\x80\xed\xb0\x80\xe2\x82\xac"; if (s.thorough) go("huge8", 2);
        c = Case(); c.w = u"x"; go("huge16", 1);
        c = Case(); c.w = u"\U0001F600"; go("huge16", 1);
        c = Case(); c.d = U"x"; go("huge32", 1);
    }
    // every prefix of valid text
    for (size_t i = 0; i < n / 20; ++i)
    {
        std::u32string t = gen::randText(rng, gen::kUnicode, false);
        std::string b = model::enc8(t); std::u16string w = model::enc16(t);
        for (size_t k = 1; k <= b.size(); ++k) { c = Case(); c.op = "u8"; c.b = b.substr(0, k); vm::runHere(c); }
        for (size_t k = 1; k <= w.size(); ++k) { c = Case(); c.op = "u16"; c.w = w.substr(0, k); vm::runHere(c); }
        VM_COUNT("all prefixes of a text");
    }
}
Case fuzzCase(const uint8_t* p, size_t n)
{
    Case c; unsigned k = n ? *p % 3 : 0; if (n) { ++p; --n; }
    if (k == 0) { c.op = "u8"; c.b = gen::fz8(p, n); }
    else if (k == 1) { c.op = "u16"; c.w = gen::fz16(p, n); }
    else { c.op = "u32"; c.d = gen::fz32(p, n); }
    return c;
}
