// P04: round trips through any chain of encodings lose nothing
#include "string.hxx"
#include "gen.hxx"
#include "ranges.hxx"
using namespace ansak; using vm::Case; using gen::Rng;
const char* const kProperty = "P04";

enum Enc { e8, e16, e2, e4, eW, eCount };
struct Any { Enc e; std::string s8; std::u16string s16; std::u32string s4; std::wstring w; };

static Any make(Enc e, const std::u32string& cps)
{
    Any a; a.e = e;
    switch (e)
    {
    case e8: a.s8 = model::enc8(cps); break;
    case e16: case e2: a.s16 = model::enc16(cps); break;
    case e4: a.s4 = cps; break;
    default: for (char32_t c : cps) a.w.push_back(wchar_t(c)); break;
    }
    return a;
}
static bool hop(const Any& a, Enc to, bool ptr, Any& r)
{
    r = Any(); r.e = to;
#define FROM(x) \
    switch (to) { \
    case e8: r.s8 = ptr ? toUtf8(x.c_str()) : toUtf8(x); return true; \
    case e16: r.s16 = ptr ? toUtf16(x.c_str()) : toUtf16(x); return true; \
    case e2: r.s16 = ptr ? toUcs2(x.c_str()) : toUcs2(x); return true; \
    case e4: r.s4 = ptr ? toUcs4(x.c_str()) : toUcs4(x); return true; \
    default: return false; }
    switch (a.e)
    {
    case e8:
        switch (to)
        {
        case e16: r.s16 = ptr ? toUtf16(a.s8.c_str()) : toUtf16(a.s8); return true;
        case e2: r.s16 = ptr ? toUcs2(a.s8.c_str()) : toUcs2(a.s8); return true;
        case e4: r.s4 = ptr ? toUcs4(a.s8.c_str()) : toUcs4(a.s8); return true;
        case eW: r.w = ptr ? toWstring(a.s8.c_str()) : toWstring(a.s8); return true;
        default: return false;
        }
    case e16: case e2:
        switch (to)
        {
        case e8: r.s8 = ptr ? toUtf8(a.s16.c_str()) : toUtf8(a.s16); return true;
        case e4: r.s4 = ptr ? toUcs4(a.s16.c_str()) : toUcs4(a.s16); return true;
        case eW: r.w = ptr ? toWstring(a.s16.c_str()) : toWstring(a.s16); return true;
        default: return false;
        }
    case e4:
        switch (to)
        {
        case e8: r.s8 = ptr ? toUtf8(a.s4.c_str()) : toUtf8(a.s4); return true;
        case e16: r.s16 = ptr ? toUtf16(a.s4.c_str()) : toUtf16(a.s4); return true;
        case e2: r.s16 = ptr ? toUcs2(a.s4.c_str()) : toUcs2(a.s4); return true;
        case eW: r.w = ptr ? toWstring(a.s4.c_str()) : toWstring(a.s4); return true;
        default: return false;
        }
    case eW: FROM(a.w)
    default: return false;
    }
}
static std::string dump(const Any& a)
{
    switch (a.e) { case e8: return vm::hex(a.s8); case e16: case e2: return vm::hex(a.s16); case e4: return vm::hex(a.s4); default: return vm::hex(a.w); }
}
static bool equal(const Any& a, const Any& b) { return a.e == b.e && a.s8 == b.s8 && a.s16 == b.s16 && a.s4 == b.s4 && a.w == b.w; }
// length and validity as the library sees this step
static unsigned length(const Any& a, bool& known)
{
    known = true;
    switch (a.e) { case e8: return unicodeLength(a.s8); case e16: case e2: return unicodeLength(a.s16); case e4: return unicodeLength(a.s4); default: known = false; return 0; }
}
static unsigned validity(const Any& a)      // one bit per target range
{
    unsigned m = 0;
    for (int r = 0; r < model::rCount; ++r)
    {
        bool b = false;
        switch (a.e)
        {
        case e8: b = isUtf8(a.s8, kR[r]); break;
        case e16: case e2: b = isUtf16(a.s16, kR[r]); break;
        case e4: b = isUcs4(a.s4, kR[r]); break;
        default: b = isUcs4(reinterpret_cast<const char32_t*>(a.w.c_str()), kR[r]); break;
        }
        if (b) m |= 1u << r;
    }
    return m;
}

void checkCase(const Case& c)
{
    // d: the text; n[0]: start encoding; n[1..]: hops (encoding + 8 for the pointer form)
    if (c.n.empty()) return;
    bool bmp = model::allIn(c.d, model::rUcs2);
    Enc start = Enc(c.n[0] % eCount);
    if (start == e2 && !bmp) start = e16;
    Any a = make(start, c.d), first = a;
    unsigned want = validity(a);
    for (size_t i = 1; i <= c.n.size() + 1; ++i)
    {
        // the last two steps go back to the start (through UCS-4 or UTF-8 if there is no direct way)
        Enc to; bool ptr = false;
        if (i < c.n.size()) { to = Enc((c.n[i] & 7) % eCount); ptr = (c.n[i] & 8) != 0; }
        else if (i == c.n.size()) to = (start == e4 || start == e2 || start == e16) ? e8 : e4;
        else to = start;
        if (to == e2 && !bmp) to = e16;
        if (to == a.e || ((a.e == e16 || a.e == e2) && (to == e16 || to == e2))) continue;
        Any b;
        if (!hop(a, to, ptr, b)) continue;
        VM_COUNT("hop");
        Any want2 = make(to, c.d);
        if (!equal(b, want2))
        {
            vm::fail(c, "hop " + std::to_string(i) + " from encoding " + std::to_string(a.e) + " to " + std::to_string(to) + ": [" + dump(a) + "] became [" + dump(b) + "]");
            return;
        }
        bool known; unsigned len = length(b, known);
        if (known && len != c.d.size()) { vm::fail(c, "after hop " + std::to_string(i) + " the length is " + std::to_string(len)); return; }
        unsigned v = validity(b);
        if (v != want) { vm::fail(c, "after hop " + std::to_string(i) + " the validity answers changed"); return; }
        a = b;
    }
    if (!(a.e == first.e || ((a.e == e2 || a.e == e16) && (first.e == e2 || first.e == e16)))) vm::fail(c, "harness: chain did not return");
    else { a.e = first.e; if (!equal(a, first)) vm::fail(c, "round trip gave [" + dump(a) + "] from [" + dump(first) + "]"); else VM_COUNT("round trip closed"); }
}

void workload()
{
    auto& s = vm::st();
    Rng rng(s.seed * 1000 + s.shard);
    Case c;
    // every code point through a fixed grand tour
    for (uint32_t v = 1 + s.shard; v < 0x110000; v += s.shards)
    {
        if (model::isSur(v)) continue;
        c = Case(); c.op = "chain"; c.d.assign(1, v);
        c.n = { (long long)(v % eCount), e4, e8, e16, e4, e16 + 8, e8 + 8, e2, e8, e4 + 8, eW, e8, eW + 8, e16, eW, e2, e4, e2 + 8, eW, e4 };
        vm::runHere(c);
        VM_COUNT("single code point tour");
    }
    size_t n = s.thorough ? 3000000 : 150000;
    auto randChain = [&](const std::u32string& t, size_t maxHops) {
        c = Case(); c.op = "chain"; c.d = t; c.n.push_back(int(rng.below(eCount)));
        size_t h = 1 + rng.below(maxHops);
        for (size_t k = 0; k < h; ++k) c.n.push_back(int(rng.below(eCount)) | (rng.chance(1, 2) ? 8 : 0));
        vm::runHere(c);
    };
    for (size_t i = 0; i < n; ++i) { randChain(gen::randText(rng, rng.chance(1, 3) ? gen::kBmp : gen::kUnicode), 12); VM_COUNT("random chain"); }
    for (size_t len : gen::padLens(s.thorough, s.thorough ? 16 : 12))
        for (uint32_t v : { 0x7Fu, 0x80u, 0x7FFu, 0x800u, 0xFFFFu, 0x10000u, 0x1F600u, 0x10FFFFu })
        {
            if (!vm::myTurn()) continue;
            randChain(std::u32string(len, rng.chance(1, 2) ? U'a' : char32_t(gen::randCp(rng, gen::kUnicode))) + char32_t(v) + std::u32string(rng.below(3), U'z'), 6);
            VM_COUNT("padded chain");
        }
    // pairs and triples that mean something together, each over two chains
    gen::combos(gen::kUnicode, [&](const std::u32string& t) { randChain(t, 6); randChain(t, 12); });
    gen::combos(gen::kBmp, [&](const std::u32string& t) { randChain(t, 8); });
    for (size_t len : gen::freshLong(500000)) if (vm::myTurn()) randChain(std::u32string(len, char32_t(gen::randCp(rng, gen::kUnicode))), 6);
    for (unsigned i = 0; i < (s.thorough ? 20u : 1u); ++i)
    {
        std::u32string t; size_t len = 100000 + rng.below(200000);
        for (size_t j = 0; j < len; ++j) t.push_back(gen::randCp(rng, i % 2 ? gen::kBmp : gen::kUnicode));
        randChain(t, 6); VM_COUNT("very long chain");
    }
}
Case fuzzCase(const uint8_t* p, size_t n)
{
    Case c; c.op = "chain";
    size_t h = std::min<size_t>(n, 6);
    for (size_t i = 0; i < h; ++i) c.n.push_back(*p++);
    n -= h;
    if (c.n.empty()) c.n.push_back(0);
    model::Text t = model::dec8(gen::fz8(p, n));
    for (char32_t v : t.cps) if (v <= 0x10FFFF) c.d.push_back(v);
    return c;
}
