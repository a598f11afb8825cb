// P01: validity verdicts are exact for every encoding and target range
#include "string.hxx"
#include "gen.hxx"
#include "ranges.hxx"
using namespace ansak; using vm::Case; using gen::Rng;
const char* const kProperty = "P01";

template <class IsP, class IsS, class Model>
static void judge(const Case& c, const char* what, IsP isP, IsS isS, Model verdict)
{
    for (int r = 0; r < model::rCount; ++r)
    {
        model::Verdict v = verdict(r);
        bool p = isP(kR[r]), s = isS(kR[r]);
        if (v == model::vTrue) VM_COUNT("verdict true expected"); else if (v == model::vFalse) VM_COUNT("verdict false expected"); else VM_COUNT("verdict open");
        if (v != model::vOpen && p != (v == model::vTrue))
            vm::fail(c, std::string(what) + " pointer form, target " + kRName[r] + ": answered " + vname(p));
        if (v != model::vOpen && s != (v == model::vTrue))
            vm::fail(c, std::string(what) + " string form, target " + kRName[r] + ": answered " + vname(s));
    }
    for (int b : kBadRanges)
    {
        VM_COUNT("target outside the enumeration");
        if (isP(static_cast<RangeType>(b)) || isS(static_cast<RangeType>(b)))
            vm::fail(c, std::string(what) + " accepted target range value " + std::to_string(b));
    }
}

// n: how many units; texts too long for a signed (or any 32-bit) counter
template <class C, class Is> static void huge(const Case& c, const std::basic_string<C>& pattern, RangeType yes, RangeType no, const std::basic_string<C>& bad, Is is, const char* what)
{
    size_t n = size_t(c.n[0]) / pattern.size() * pattern.size();
    gen::Huge<C> h(pattern, n, true);
    auto say = [&](RangeType r, bool want) { gen::Huge<C>::judge([&] { bool got = is(h.text(), r); VM_COUNT("verdict on billions of units"); if (got != want) vm::fail(c, std::string(what) + " on " + std::to_string(n) + " units, target " + kRName[int(r)] + ": answered " + vname(got)); }); };
    if (n < 0x100000000ull || vm::st().thorough) say(yes, true);
    h.endWith(bad); say(n < 0x100000000ull ? no : yes, false);
}
void checkCase(const Case& c)
{
    if (c.op == "huge8") { huge<char>(c, "x", kAscii, kUnicode, "\xff", [](const char* p, RangeType r) { return isUtf8(p, r); }, "isUtf8"); return; }
    if (c.op == "huge16") { huge<char16_t>(c, u"\U0001F600", kUtf16, kUnicode, std::u16string(2, char16_t(0xDC00)), [](const char16_t* p, RangeType r) { return isUtf16(p, r); }, "isUtf16"); return; }
    if (c.op == "huge2") { huge<char16_t>(c, u"x", kAscii, kUnicode, std::u16string(1, char16_t(0xDC00)), [](const char16_t* p, RangeType r) { return isUcs2(p, r); }, "isUcs2"); return; }
    if (c.op == "huge32") { huge<char32_t>(c, U"x", kAscii, kUnicode, std::u32string(1, char32_t(0xDC00)), [](const char32_t* p, RangeType r) { return isUcs4(p, r); }, "isUcs4"); return; }
    if (c.op == "u8")
    {
        const char* p = gen::guard().z(c.b);
        model::Text t = model::dec8(c.b);
        judge(c, "isUtf8", [&](RangeType r) { return isUtf8(p, r); }, [&](RangeType r) { return isUtf8(c.b, r); },
              [&](int r) { return model::is8(t, r, model::anyChar); });
        if (!c.b.empty())
        {
            // with an explicit length; a first half of a low surrogate at the end can never be completed
            model::Verdict v = model::is8(t, model::rUtf8, model::anyChar);
            size_t n = c.b.size();
            if (v == model::vOpen && n >= 2 && static_cast<unsigned char>(c.b[n - 2]) == 0xED && t.tail == model::kDoomed && t.pendingTail == 0) v = model::vFalse;
            bool a = isUtf8(gen::guard().bare(c.b.data(), n), unsigned(n));
            VM_COUNT("explicit length");
            if (v != model::vOpen && a != (v == model::vTrue)) vm::fail(c, std::string("isUtf8 with explicit length: answered ") + vname(a));
        }
        if (t.tail == model::kPartial) VM_COUNT("utf8 incomplete end"); else if (!t.valid) VM_COUNT("utf8 malformed"); else VM_COUNT("utf8 well formed");
    }
    else if (c.op == "u16")
    {
        const char16_t* p = gen::guard().z(c.w);
        model::Text t = model::dec16(c.w), t2 = model::dec2(c.w);
        judge(c, "isUtf16", [&](RangeType r) { return isUtf16(p, r); }, [&](RangeType r) { return isUtf16(c.w, r); },
              [&](int r) { return model::is16(t, r, model::anyChar); });
        judge(c, "isUcs2", [&](RangeType r) { return isUcs2(p, r); }, [&](RangeType r) { return isUcs2(c.w, r); },
              [&](int r) { return model::isFixed(t2, r, model::anyChar); });
        if (!t.valid) VM_COUNT("utf16 malformed"); else VM_COUNT("utf16 well formed");
    }
    else if (c.op == "u32")
    {
        const char32_t* p = gen::guard().z(c.d);
        model::Text t = model::dec32(c.d);
        judge(c, "isUcs4", [&](RangeType r) { return isUcs4(p, r); }, [&](RangeType r) { return isUcs4(c.d, r); },
              [&](int r) { return model::isFixed(t, r, model::anyChar); });
    }
    else if (c.op == "null")
    {
        for (int r = 0; r < model::rCount; ++r)
            if (!isUtf8(static_cast<const char*>(nullptr), kR[r]) || !isUtf16(static_cast<const char16_t*>(nullptr), kR[r]) ||
                !isUcs2(static_cast<const char16_t*>(nullptr), kR[r]) || !isUcs4(static_cast<const char32_t*>(nullptr), kR[r]))
                vm::fail(c, std::string("null text rejected for ") + kRName[r]);
        for (int b : kBadRanges)
        {
            auto r = static_cast<RangeType>(b);
            if (isUtf8(static_cast<const char*>(nullptr), r) || isUtf16(static_cast<const char16_t*>(nullptr), r) ||
                isUcs2(static_cast<const char16_t*>(nullptr), r) || isUcs4(static_cast<const char32_t*>(nullptr), r))
                vm::fail(c, "accepted target range value " + std::to_string(b));
        }
    }
}

// hot loop: only the six real ranges, pointer form, no case object unless something is wrong
static void fast8(const char* p, size_t n, bool enumerated = true)
{
    auto& s = vm::st();
    vm::fastEval(enumerated);
    model::Text t = model::dec8(p, n);
    bool bad = false;
    for (int r = 0; r < model::rCount; ++r)
    {
        model::Verdict v = model::is8(t, r, model::anyChar);
        if (v != model::vOpen && isUtf8(p, kR[r]) != (v == model::vTrue)) bad = true;
    }
    if (bad) { Case c; c.op = "u8"; c.b.assign(p, n); vm::runHere(c); if (s.viol.empty()) vm::fail(c, "verdict differs only in the tight loop (depends on history or address)"); }
}
static void fast32(uint32_t v, bool enumerated = true)
{
    auto& s = vm::st();
    vm::fastEval(enumerated);
    char32_t b[2] = { v, 0 };
    for (int r = 0; r < model::rCount; ++r)
        if (isUcs4(b, kR[r]) != model::inRange(v, r)) { Case c; c.op = "u32"; c.d.assign(1, v); vm::runHere(c); if (s.viol.empty()) vm::fail(c, "verdict differs only in the tight loop"); return; }
}

void workload()
{
    auto& s = vm::st();
    Rng rng(s.seed * 1000 + s.shard);
    Case c;
    c.op = "null"; vm::run(c);
    for (const char* op : { "u8", "u16", "u32" }) { c.op = op; vm::run(c); }     // empty
    // more units than a 32-bit counter can hold, signed or not (UCS-4: thorough only)
    for (const char* op : { "huge8", "huge16", "huge2", "huge32" })
        for (long long u : { 0x80000002ll, 0x100000002ll })
        {
            if (!s.thorough && (op[4] == '3' || u > 0x80000002ll) && op[4] != '8') continue;
            c = Case(); c.op = op; c.n.assign(1, u); if (vm::myTurn()) vm::runHere(c);
        }
    c = Case();
    // every byte sequence of length 1..3 (thorough: and every 4-byte one from the lead bytes F0..F7, C0.., ED ...)
    for (unsigned a = 1; a < 256; ++a)
    {
        if (a % s.shards != s.shard) continue;
        char b[8] = { char(a), 0 };
        fast8(b, 1);
        for (unsigned x = 1; x < 256; ++x)
        {
            b[1] = char(x); b[2] = 0; fast8(b, 2);
            for (unsigned y = 1; y < 256; ++y)
            {
                b[2] = char(y); b[3] = 0; fast8(b, 3);
                if (s.thorough && a >= 0xF0 && a <= 0xF7 && x >= 0x80 && x <= 0xBF)
                    for (unsigned z = 1; z < 256; ++z) { b[3] = char(z); b[4] = 0; fast8(b, 4); }
            }
        }
        vm::ev("byte sequences of length 1 to 3, first byte done");
    }
    // all sequences over a representative alphabet, length 4 (thorough 5), and random longer ones
    {
        const auto& al = gen::alpha8();
        size_t k = al.size(), total = k * k * k * k * (s.thorough ? k : 1);
        unsigned len = s.thorough ? 5 : 4;
        for (size_t i = s.shard; i < total; i += s.shards)
        {
            char b[8]; size_t v = i;
            for (unsigned j = 0; j < len; ++j) { b[j] = char(al[v % k]); v /= k; }
            b[len] = 0; fast8(b, len);
        }
        vm::ev("bounded-exhaustive alphabet sequences", total / s.shards);
        size_t nr = s.thorough ? 20000000 : 1500000;
        for (size_t i = 0; i < nr; ++i)
        {
            char b[16]; unsigned n = 5 + unsigned(rng.below(8));
            for (unsigned j = 0; j < n; ++j) b[j] = char(al[rng.below(k)]);
            b[n] = 0; fast8(b, n, false);
        }
        vm::ev("random alphabet sequences", nr);
    }
    // every code point: as UTF-8, as two surrogate halves, UTF-16, UCS-2, UCS-4
    for (uint32_t v = 1; v < 0x200000; ++v)
    {
        if (v % s.shards != s.shard) continue;
        fast32(v);
        if (model::isSur(v)) { c = Case(); c.op = "u16"; c.w.assign(1, char16_t(v)); vm::runHere(c); continue; }
        std::string b; model::put8(b, v); fast8(b.c_str(), b.size());
        if (v >= 0x10000 && v <= 0x10FFFF)
        {
            b.clear(); model::putCesu(b, v); fast8(b.c_str(), b.size());
            if (s.thorough || v % 16 == 0) { c = Case(); c.op = "u16"; model::put16(c.w, v); vm::runHere(c); }
        }
        else if (v < 0x10000) { c = Case(); c.op = "u16"; c.w.assign(1, char16_t(v)); vm::runHere(c); }
    }
    vm::ev("code points to 1FFFFF", 0x200000 / s.shards);
    // 31/32 bit values
    for (uint64_t i = 0, n = s.thorough ? 0x100000000ull / s.shards : 3000000; i < n; ++i)
    {
        uint32_t v = s.thorough ? uint32_t(i * s.shards + s.shard) : uint32_t(rng.next() >> (32 + rng.below(12)));
        if (!v) continue;
        fast32(v, s.thorough);
        if (v <= 0x7FFFFFFF && !model::isSur(v) && (!s.thorough || v % 16 == 1)) { std::string b; model::put8(b, v); fast8(b.c_str(), b.size(), s.thorough); }
    }
    vm::ev("32-bit values", s.thorough ? 0x100000000ull / s.shards : 3000000);
    // all pairs of 16-bit units around the surrogates, every unit after/before a high surrogate
    for (unsigned hi : { 0xD7FFu, 0xD800u, 0xDABCu, 0xDBFFu, 0xDC00u, 0xDFFFu, 0xE000u, 0x41u })
        for (unsigned lo = 1; lo < 0x10000; ++lo)
            if (lo % s.shards == s.shard) { c = Case(); c.op = "u16"; c.w = { char16_t(hi), char16_t(lo) }; vm::runHere(c); }
    for (unsigned hi = 0xD800; hi < 0xE000; ++hi)
        for (unsigned lo : { 0u, 0x41u, 0xD7FFu, 0xD800u, 0xDBFFu, 0xDC00u, 0xDFFFu, 0xE000u, 0xFFFFu })
            if (hi % s.shards == s.shard) { c = Case(); c.op = "u16"; c.w.assign(1, char16_t(hi)); if (lo) c.w.push_back(char16_t(lo)); vm::runHere(c); }
    gen::texts8(rng, s.thorough ? 3000000 : 150000, [&](const std::string& t) { c = Case(); c.op = "u8"; c.b = t; vm::runHere(c); });
    gen::texts16(rng, s.thorough ? 1000000 : 60000, [&](const std::u16string& t) { c = Case(); c.op = "u16"; c.w = t; vm::runHere(c); });
    gen::texts32(rng, s.thorough ? 1000000 : 60000, [&](const std::u32string& t) { c = Case(); c.op = "u32"; c.d = t; vm::runHere(c); });
}
Case fuzzCase(const uint8_t* p, size_t n)
{
    Case c;
    unsigned k = n ? *p++ % 4 : 0; if (n) --n;
    if (k < 2) { c.op = "u8"; c.b = gen::fz8(p, n); }
    else if (k == 2) { c.op = "u16"; c.w = gen::fz16(p, n); }
    else { c.op = "u32"; c.d = gen::fz32(p, n); }
    return c;
}
