// P21: all forms of an operation agree
#include "string.hxx"
#include "string_splitjoin.hxx"
#include "string_trim.hxx"
#include "predspec.hxx"
#include "model.hxx"
#include "gen.hxx"
#include "ranges.hxx"
using namespace ansak; using vm::Case; using gen::Rng; using predspec::Spec;
const char* const kProperty = "P21";

static const int kAllRanges[] = { 0, 1, 2, 3, 4, 5, 6, 7, -1, 1000, 0x7FFFFFFF, int(0x80000000) };
#define SAME(a, b, what) do { if ((a) != (b)) vm::fail(c, std::string(what)); } while (0)

static EncodingCheckPredicate predOf(const Case& c)
{
    Spec s; for (size_t i = 1; i < c.n.size(); ++i) s.push_back(c.n[i]);
    return predspec::build(s, c.n.empty() ? 0 : unsigned(c.n[0]));
}
static void form8(const Case& c)
{
    const std::string& s = c.b; const char* z = gen::guard().z(s);
    EncodingCheckPredicate p = predOf(c), none;
    model::Text t = model::dec8(s);
    for (int r : kAllRanges)
    {
        auto R = static_cast<RangeType>(r);
        bool a = isUtf8(z, R, p);
        SAME(isUtf8(s, R, p), a, "isUtf8(string, range, predicate) and isUtf8(pointer, range, predicate)");
        bool b = isUtf8(z, R, none);
        SAME(isUtf8(z, R), b, "isUtf8(pointer, range) and with the empty predicate"); SAME(isUtf8(s, R), b, "isUtf8(string, range) and the pointer form"); SAME(isUtf8(s, R, none), b, "isUtf8(string, range, empty predicate)");
    }
    SAME(isUtf8(z), isUtf8(z, kUtf8), "isUtf8(pointer) and target UTF-8"); SAME(isUtf8(s), isUtf8(s, kUtf8), "isUtf8(string) and target UTF-8");
    SAME(isUtf8(z, p), isUtf8(z, kUtf8, p), "isUtf8(pointer, predicate) and target UTF-8"); SAME(isUtf8(s, p), isUtf8(s, kUtf8, p), "isUtf8(string, predicate) and target UTF-8");
    SAME(unicodeLength(z), unicodeLength(s), "unicodeLength(utf8 pointer) and string"); SAME(unicodeLength(z, 0), unicodeLength(z), "unicodeLength(utf8, 0) and pointer");
    if (!s.empty() && (!t.valid || t.tail == model::kNone))
    {
        const char* q = gen::guard().bare(s.data(), s.size()); unsigned n = unsigned(s.size());
        SAME(isUtf8(q, n), isUtf8(s), "isUtf8(pointer, length) and string"); SAME(isUtf8(q, n, p), isUtf8(s, p), "isUtf8(pointer, length, predicate) and string"); SAME(isUtf8(q, n, none), isUtf8(s), "isUtf8(pointer, length, empty predicate)");
        SAME(unicodeLength(q, n), unicodeLength(s), "unicodeLength(utf8, length) and string");
        VM_COUNT("explicit length");
    }
    z = gen::guard().z(s);
    SAME(toUcs2(z), toUcs2(s), "toUcs2(pointer) and string"); SAME(toUtf16(z), toUtf16(s), "toUtf16(pointer) and string"); SAME(toUcs4(z), toUcs4(s), "toUcs4(pointer) and string");
    SAME(isWstring(z), isWstring(s), "isWstring(pointer) and string"); SAME(toWstring(z), toWstring(s), "toWstring(pointer) and string");
    auto low = toLower(s); SAME(toLower(s, nullptr), low, "toLower with a null language"); SAME(toLower(s, ""), low, "toLower with an empty language");
}
static void form16(const Case& c)
{
    const std::u16string& s = c.w; const char16_t* z = gen::guard().z(s);
    EncodingCheckPredicate p = predOf(c), none;
    model::Text t = model::dec16(s);
    for (int r : kAllRanges)
    {
        auto R = static_cast<RangeType>(r);
        SAME(isUtf16(s, R, p), isUtf16(z, R, p), "isUtf16(string, range, predicate) and pointer"); SAME(isUcs2(s, R, p), isUcs2(z, R, p), "isUcs2(string, range, predicate) and pointer");
        bool a = isUtf16(z, R, none), b = isUcs2(z, R, none);
        SAME(isUtf16(z, R), a, "isUtf16(pointer, range) and with the empty predicate"); SAME(isUtf16(s, R), a, "isUtf16(string, range)");
        SAME(isUcs2(z, R), b, "isUcs2(pointer, range) and with the empty predicate"); SAME(isUcs2(s, R), b, "isUcs2(string, range)");
    }
    SAME(isUtf16(z), isUtf16(z, kUtf16), "isUtf16(pointer) and target UTF-16"); SAME(isUtf16(s), isUtf16(z), "isUtf16(string) and pointer"); SAME(isUtf16(z, p), isUtf16(z, kUtf16, p), "isUtf16(pointer, predicate) and target UTF-16"); SAME(isUtf16(s, p), isUtf16(s, kUtf16, p), "isUtf16(string, predicate) and target UTF-16");
    SAME(isUcs2(z), isUcs2(z, kUcs2), "isUcs2(pointer) and target UCS-2"); SAME(isUcs2(s), isUcs2(z), "isUcs2(string) and pointer"); SAME(isUcs2(z, p), isUcs2(z, kUcs2, p), "isUcs2(pointer, predicate) and target UCS-2"); SAME(isUcs2(s, p), isUcs2(s, kUcs2, p), "isUcs2(string, predicate) and target UCS-2");
    SAME(unicodeLength(z), unicodeLength(s), "unicodeLength(utf16 pointer) and string"); SAME(unicodeLength(z, 0), unicodeLength(z), "unicodeLength(utf16, 0) and pointer");
    if (!s.empty() && (!t.valid || t.tail == model::kNone)) { SAME(unicodeLength(gen::guard().bare(s.data(), s.size()), unsigned(s.size())), unicodeLength(s), "unicodeLength(utf16, length) and string"); VM_COUNT("explicit length"); }
    z = gen::guard().z(s);
    SAME(toUtf8(z), toUtf8(s), "toUtf8(utf16 pointer) and string"); SAME(toUcs4(z), toUcs4(s), "toUcs4(utf16 pointer) and string"); SAME(isWstring(z), isWstring(s), "isWstring(utf16 pointer) and string"); SAME(toWstring(z), toWstring(s), "toWstring(utf16 pointer) and string");
    auto low = toLower(s); SAME(toLower(s, nullptr), low, "toLower(utf16) with a null language"); SAME(toLower(s, ""), low, "toLower(utf16) with an empty language");
}
static void form32(const Case& c)
{
    const std::u32string& s = c.d; const char32_t* z = gen::guard().z(s);
    EncodingCheckPredicate p = predOf(c), none;
    for (int r : kAllRanges)
    {
        auto R = static_cast<RangeType>(r);
        SAME(isUcs4(s, R, p), isUcs4(z, R, p), "isUcs4(string, range, predicate) and pointer");
        bool a = isUcs4(z, R, none);
        SAME(isUcs4(z, R), a, "isUcs4(pointer, range) and with the empty predicate"); SAME(isUcs4(s, R), a, "isUcs4(string, range)");
    }
    SAME(isUcs4(z), isUcs4(z, kUcs4), "isUcs4(pointer) and target UCS-4"); SAME(isUcs4(s), isUcs4(z), "isUcs4(string) and pointer"); SAME(isUcs4(z, p), isUcs4(z, kUcs4, p), "isUcs4(pointer, predicate) and target UCS-4"); SAME(isUcs4(s, p), isUcs4(s, kUcs4, p), "isUcs4(string, predicate) and target UCS-4");
    SAME(unicodeLength(z), unicodeLength(s), "unicodeLength(ucs4 pointer) and string"); SAME(unicodeLength(z, 0), unicodeLength(z), "unicodeLength(ucs4, 0) and pointer");
    if (!s.empty()) { SAME(unicodeLength(gen::guard().bare(s.data(), s.size()), unsigned(s.size())), unicodeLength(s), "unicodeLength(ucs4, length) and string"); VM_COUNT("explicit length"); }
    z = gen::guard().z(s);
    SAME(toUtf8(z), toUtf8(s), "toUtf8(ucs4 pointer) and string"); SAME(toUcs2(z), toUcs2(s), "toUcs2(ucs4 pointer) and string"); SAME(toUtf16(z), toUtf16(s), "toUtf16(ucs4 pointer) and string");
    SAME(isWstring(z), isWstring(s), "isWstring(ucs4 pointer) and string"); SAME(toWstring(z), toWstring(s), "toWstring(ucs4 pointer) and string");
    auto low = toLower(s); SAME(toLower(s, nullptr), low, "toLower(ucs4) with a null language"); SAME(toLower(s, ""), low, "toLower(ucs4) with an empty language");
    std::wstring w; for (char32_t v : s) w.push_back(wchar_t(v));
    const wchar_t* q = w.c_str();
    SAME(isUtf8(q), isUtf8(w), "isUtf8(wide pointer) and string"); SAME(isUtf16(q), isUtf16(w), "isUtf16(wide pointer) and string"); SAME(isUcs2(q), isUcs2(w), "isUcs2(wide pointer) and string"); SAME(isUcs4(q), isUcs4(w), "isUcs4(wide pointer) and string");
    SAME(toUtf8(q), toUtf8(w), "toUtf8(wide pointer) and string"); SAME(toUtf16(q), toUtf16(w), "toUtf16(wide pointer) and string"); SAME(toUcs2(q), toUcs2(w), "toUcs2(wide pointer) and string"); SAME(toUcs4(q), toUcs4(w), "toUcs4(wide pointer) and string");
    // trim() is trim() with a set of one space
    auto x = s, y = s; trim(x); trim(y, std::u32string(U" ")); SAME(x, y, "trim(text) and trim(text, one space)");
}
template <class C> static void nulls(const Case& c)
{
    const C* z = nullptr; static const C e[1] = { 0 };
    EncodingCheckPredicate p = predOf(c);
    SAME(unicodeLength(z), unicodeLength(e), "unicodeLength(null)"); SAME(unicodeLength(z, 0), unicodeLength(e, 0), "unicodeLength(null, 0)");
    SAME(toWstring(z), toWstring(e), "toWstring(null)"); SAME(isWstring(z), isWstring(e), "isWstring(null)"); (void)p;
}
static void nullForms(const Case& c)
{
    nulls<char>(c); nulls<char16_t>(c); nulls<char32_t>(c);
    EncodingCheckPredicate p = predOf(c);
    const char* b = nullptr; const char16_t* w = nullptr; const char32_t* d = nullptr; const wchar_t* q = nullptr;
    for (int r : kAllRanges)
    {
        auto R = static_cast<RangeType>(r);
        SAME(isUtf8(b, R, p), isUtf8("", R, p), "isUtf8(null, range, predicate) and empty"); SAME(isUtf16(w, R, p), isUtf16(u"", R, p), "isUtf16(null, range, predicate) and empty");
        SAME(isUcs2(w, R, p), isUcs2(u"", R, p), "isUcs2(null, range, predicate) and empty"); SAME(isUcs4(d, R, p), isUcs4(U"", R, p), "isUcs4(null, range, predicate) and empty");
        SAME(isUtf8(b, R), isUtf8("", R), "isUtf8(null, range) and empty"); SAME(isUtf16(w, R), isUtf16(u"", R), "isUtf16(null, range) and empty"); SAME(isUcs2(w, R), isUcs2(u"", R), "isUcs2(null, range) and empty"); SAME(isUcs4(d, R), isUcs4(U"", R), "isUcs4(null, range) and empty");
        SAME(isUtf8(std::string(), R, p), isUtf8("", R, p), "isUtf8(empty string, range, predicate)"); SAME(isUtf16(std::u16string(), R, p), isUtf16(u"", R, p), "isUtf16(empty string, range, predicate)"); SAME(isUcs2(std::u16string(), R, p), isUcs2(u"", R, p), "isUcs2(empty string, range, predicate)"); SAME(isUcs4(std::u32string(), R, p), isUcs4(U"", R, p), "isUcs4(empty string, range, predicate)");
    }
    SAME(isUtf8(b), true, "isUtf8(null)"); SAME(isUtf16(w), true, "isUtf16(null)"); SAME(isUcs2(w), true, "isUcs2(null)"); SAME(isUcs4(d), true, "isUcs4(null)");
    SAME(isUtf8(b, p), true, "isUtf8(null, predicate)"); SAME(isUtf16(w, p), true, "isUtf16(null, predicate)"); SAME(isUcs2(w, p), true, "isUcs2(null, predicate)"); SAME(isUcs4(d, p), true, "isUcs4(null, predicate)");
    SAME(isUtf8(q), isUtf8(L""), "isUtf8(null wide)"); SAME(isUtf16(q), isUtf16(L""), "isUtf16(null wide)"); SAME(isUcs2(q), isUcs2(L""), "isUcs2(null wide)"); SAME(isUcs4(q), isUcs4(L""), "isUcs4(null wide)");
    SAME(toUtf8(w).empty() && toUtf8(d).empty() && toUcs2(b).empty() && toUcs2(d).empty() && toUtf16(b).empty() && toUtf16(d).empty() && toUcs4(b).empty() && toUcs4(w).empty(), true, "converting a null pointer");
    SAME(toUtf8(q).empty() && toUcs2(q).empty() && toUtf16(q).empty() && toUcs4(q).empty(), true, "converting a null wide pointer");
    for (int e : { 0, 1, 2, 3, -1 }) SAME(toUtf8(b, static_cast<SourceEncoding>(e)), toUtf8("", static_cast<SourceEncoding>(e)), "toUtf8(null, source encoding)");
    for (unsigned k : { 0u, 1u, 2u, 5u, 64u, 0x80000000u, 0xffffffffu })
    {
        SAME(isUtf8(b, k), true, "isUtf8(null, length)"); SAME(isUtf8(b, k, p), true, "isUtf8(null, length, predicate)");
        SAME(unicodeLength(b, k), 0u, "unicodeLength(null utf8, length)"); SAME(unicodeLength(w, k), 0u, "unicodeLength(null utf16, length)"); SAME(unicodeLength(d, k), 0u, "unicodeLength(null ucs4, length)");
    }
    VM_COUNT("null pointer forms");
}
// a predicate spelled in every way; equality means the same conditions
static EncodingCheckPredicate statements(const Spec& s)
{
    EncodingCheckPredicate p;
    for (long long k : s) { auto t = static_cast<EncodingType>(predspec::cls(k)); if (predspec::neg(k)) p.andIfNot(t); else p.andIf(t); }
    return p;
}
static EncodingCheckPredicate copies(const Spec& s)
{
    EncodingCheckPredicate p;
    for (long long k : s) { auto t = static_cast<EncodingType>(predspec::cls(k)); EncodingCheckPredicate was(p), now(predspec::neg(k) ? was.andIfNot(t) : was.andIf(t)); p = now; }
    return p;
}
static void predForms(const Case& c)
{
    // n = { split, conditions of the first..., conditions of the second... }
    size_t cut = c.n.empty() ? 0 : std::min(size_t(c.n[0]), c.n.size() - 1);
    Spec s(c.n.begin() + (c.n.empty() ? 0 : 1), c.n.begin() + (c.n.empty() ? 0 : 1) + long(cut)), u(c.n.begin() + (c.n.empty() ? 0 : 1) + long(cut), c.n.end());
    auto ns = predspec::need(s), nu = predspec::need(u);
    auto p = predspec::build(s, 2);
    std::vector<EncodingCheckPredicate> ways = { predspec::build(s, 0), predspec::build(s, 1), predspec::build(s, 3), statements(s), copies(s) };
    static const char32_t probe[] = { U'a', U' ', 0x85, 0x9F, 0xA0, 0x378, 0xE000, 0x10FFFF, 0x1F600, 0x3000, 0x110000, 1, 9, 0x7F, 0xF0000, 0x200B };
    for (auto& q : ways)
    {
        if (!ns.contradictory()) { SAME(q == p, true, "one predicate in two spellings: =="); SAME(p == q, true, "one predicate in two spellings: == reversed"); SAME(q != p, false, "one predicate in two spellings: !="); }
        for (char32_t x : probe) { SAME(q(x), p(x), "one predicate in two spellings accepts different characters"); if (x < 0x10000) SAME(q(char16_t(x)), p(char16_t(x)), "one predicate in two spellings accepts different 16-bit characters"); if (x < 0x100) SAME(q(char(x)), p(char(x)), "one predicate in two spellings accepts different 8-bit characters"); }
    }
    if (!ns.contradictory() && !nu.contradictory())
    {
        bool same = ns.yes == nu.yes && ns.no == nu.no; auto o = predspec::build(u, unsigned(cut) % 4);
        SAME(p == o, same, "== of two predicates"); SAME(o == p, same, "== of two predicates, reversed"); SAME(p != o, !same, "!= of two predicates"); SAME(p == p, true, "== of a predicate and itself");
        EncodingCheckPredicate e; SAME(p == e, ns.yes == 0 && ns.no == 0, "== with the empty predicate");
        if (same) VM_COUNT("equal predicates compared"); else VM_COUNT("different predicates compared");
    }
}
void checkCase(const Case& c)
{
    if (c.op == "u8") form8(c); else if (c.op == "u16") form16(c); else if (c.op == "u32") form32(c); else if (c.op == "null") nullForms(c); else if (c.op == "pred") predForms(c);
}
void workload()
{
    auto& s = vm::st();
    Rng rng(s.seed * 1000 + s.shard);
    Case c;
    std::vector<long long> conds; for (int i = 0; i <= 4; ++i) { conds.push_back(i); conds.push_back(i | 8); }
    // predicates: every chain of up to two conditions against every other one, random longer ones and their permutations
    std::vector<Spec> shortOnes(1); for (auto a : conds) { shortOnes.push_back({ a }); for (auto b : conds) shortOnes.push_back({ a, b }); }
    for (auto& a : shortOnes) for (auto& b : shortOnes) { if (!vm::myTurn()) continue; c = Case(); c.op = "pred"; c.n.assign(1, (long long)a.size()); c.n.insert(c.n.end(), a.begin(), a.end()); c.n.insert(c.n.end(), b.begin(), b.end()); vm::runHere(c); VM_COUNT("pair of short chains"); }
    size_t n = s.thorough ? 1500000 : 60000;
    for (size_t i = 0; i < n; ++i)
    {
        Spec a = predspec::randSpec(rng, 8), b = rng.chance(1, 2) ? predspec::randSpec(rng, 8) : a;
        if (rng.chance(1, 2)) for (size_t k = b.size(); k > 1; --k) std::swap(b[k - 1], b[rng.below(k)]);
        if (!b.empty() && rng.chance(1, 3)) b.push_back(b[rng.below(b.size())]);
        if (!b.empty() && rng.chance(1, 4)) b[rng.below(b.size())] ^= 8;
        c = Case(); c.op = "pred"; c.n.assign(1, (long long)a.size()); c.n.insert(c.n.end(), a.begin(), a.end()); c.n.insert(c.n.end(), b.begin(), b.end()); vm::runHere(c);
    }
    for (int how = 0; how < 4; ++how) for (auto a : conds) { c = Case(); c.op = "null"; c.n = { how, a }; vm::runHere(c); }
    c = Case(); c.op = "null"; vm::runHere(c);
    auto preds = [&] { c.n.assign(1, (long long)rng.below(4)); Spec p = predspec::randSpec(rng, 3); c.n.insert(c.n.end(), p.begin(), p.end()); };
    // every one and two bytes, every code point and 16-bit unit
    for (unsigned a = 1; a < 256; ++a) { if (!vm::myTurn()) continue; for (unsigned b = 0; b < 256; ++b) { c = Case(); c.op = "u8"; preds(); c.b.assign(1, char(a)); if (b) c.b.push_back(char(b)); vm::runHere(c); } VM_COUNT("two bytes"); }
    for (uint32_t v = 1 + s.shard; v < 0x110000 + 0x400; v += s.shards * (s.thorough || v < 0x3000 ? 1 : 3))
    {
        c = Case(); c.op = "u32"; preds(); c.d = { char32_t(v) }; if (v & 1) c.d.push_back(U'A'); vm::runHere(c);
        if (v < 0x10000) { c = Case(); c.op = "u16"; preds(); c.w = { char16_t(v) }; vm::runHere(c); c.w.push_back(u'x'); vm::runHere(c); }
        if (!model::isSur(v)) { c = Case(); c.op = "u8"; preds(); model::put8(c.b, v); vm::runHere(c); if (v < 0x110000) { c = Case(); c.op = "u16"; preds(); model::put16(c.w, v); vm::runHere(c); } }
        VM_COUNT("code points");
    }
    gen::texts8(rng, n, [&](const std::string& t) { c = Case(); c.op = "u8"; c.b = t; preds(); vm::runHere(c); }, s.thorough ? 14 : 10);
    gen::texts16(rng, n, [&](const std::u16string& t) { c = Case(); c.op = "u16"; c.w = t; preds(); vm::runHere(c); }, s.thorough ? 14 : 10);
    gen::texts32(rng, n, [&](const std::u32string& t) { c = Case(); c.op = "u32"; c.d = t; preds(); vm::runHere(c); }, s.thorough ? 14 : 10);
}
Case fuzzCase(const uint8_t* p, size_t n)
{
    Case c; if (n < 4) { c.op = "null"; return c; }
    unsigned k = *p % 4; c.n = { p[1] % 4, p[2] & 15, p[3] & 15 }; p += 4; n -= 4;
    if (k == 0) { c.op = "u8"; c.b = gen::fz8(p, n); }
    else if (k == 1) { c.op = "u16"; c.w = gen::fz16(p, n); }
    else if (k == 2) { c.op = "u32"; c.d = gen::fz32(p, n); }
    else { c.op = "pred"; for (size_t i = 0; i < n && i < 12; ++i) c.n.push_back(p[i] & 15); }
    return c;
}
