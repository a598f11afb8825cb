// P14: Windows code page text converts byte for byte
#include "string.hxx"
#include "gen.hxx"
using namespace ansak; using vm::Case; using gen::Rng;
#include "codepages.inc"
const char* const kProperty = "P14";

void checkCase(const Case& c)
{
    int enc = int(c.n.empty() ? 0 : c.n[0]);
    bool null = c.op == "null";
    const char* p = null ? nullptr : gen::guard().z(c.b);
    std::string got = toUtf8(p, static_cast<SourceEncoding>(enc));
    if (null || c.b.empty()) { VM_COUNT("null or empty"); if (!got.empty()) vm::fail(c, "nothing converted to [" + vm::hex(got) + "]"); return; }
    if (enc == kSrcCP1252 || enc == kSrcCP1250)
    {
        const unsigned* t = enc == kSrcCP1252 ? kCP1252 : kCP1250;
        std::string want;
        for (unsigned char b : c.b) { if (!t[b]) { want.clear(); VM_COUNT("undefined byte"); break; } model::put8(want, t[b]); }
        if (!want.empty()) VM_COUNT("code page text converted");
        if (got != want) vm::fail(c, std::string(enc == kSrcCP1252 ? "CP1252" : "CP1250") + " [" + vm::hex(c.b) + "] gave [" + vm::hex(got) + "], not [" + vm::hex(want) + "]");
    }
    else if (enc == kSrcUnicode)
    {
        model::Text t = model::dec8(c.b);
        if (t.valid && t.tail == model::kNone && model::allIn(t.cps, model::rUtf8)) { VM_COUNT("valid UTF-8 passed through"); if (got != c.b) vm::fail(c, "valid UTF-8 [" + vm::hex(c.b) + "] came back as [" + vm::hex(got) + "]"); }
        else VM_COUNT("other bytes passed through, not judged");
    }
    else { VM_COUNT("unknown source encoding"); if (!got.empty()) vm::fail(c, "source encoding " + std::to_string(enc) + " converted to [" + vm::hex(got) + "]"); }
}
void workload()
{
    auto& s = vm::st();
    Rng rng(s.seed * 1000 + s.shard);
    Case c;
    const int encs[] = { kSrcUnicode, kSrcCP1252, kSrcCP1250, -1, 3, 4, 5, 100, 1252, 1250, 257, 258, 0x7FFFFFFF, int(0x80000000), int(0x80000001), -2 };
    for (int e : encs) { c = Case(); c.op = "null"; c.n.assign(1, e); vm::runHere(c); c.op = "b"; vm::runHere(c); }
    // every byte, every pair and every triple of upper bytes with the two code pages
    for (unsigned a = 1; a < 256; ++a)
    {
        if (!vm::myTurn()) continue;
        for (int e : encs) { c = Case(); c.op = "b"; c.n.assign(1, e); c.b.assign(1, char(a)); vm::runHere(c); c.b.assign({ 'x', char(a), 'y' }); vm::runHere(c); c.b.assign(3, char(a)); vm::runHere(c); }
        for (unsigned b = 1; b < 256; ++b)
            for (int e : { kSrcCP1252, kSrcCP1250 })
            {
                c = Case(); c.op = "b"; c.n.assign(1, e); c.b.assign({ char(a), char(b) }); vm::runHere(c);
                if (s.thorough || (a * 7 + b) % 8 == 0) for (unsigned d = 1; d < 256; ++d) { c.b.assign({ char(a), char(b), char(d) }); vm::runHere(c); }
            }
        VM_COUNT("all pairs with a first byte");
    }
    // each byte at offsets near block sizes
    for (size_t len : gen::padLens(s.thorough, s.thorough ? 16 : 12))
        for (int e : { kSrcCP1252, kSrcCP1250 })
            for (int q = 0; q < (len < 70 ? 128 : 12); ++q)
            {
                if (!vm::myTurn()) continue;
                unsigned v = len < 70 ? 128 + unsigned(q) : 128 + unsigned(rng.below(128));
                c = Case(); c.op = "b"; c.n.assign(1, e);
                c.b = std::string(len, rng.chance(1, 2) ? 'a' : rng.chance(1, 2) ? char(0xE9) : char(0x80)) + char(v); vm::runHere(c); c.b += "z"; vm::runHere(c);
                VM_COUNT("byte at offset");
            }
    size_t n = s.thorough ? 3000000 : 150000;
    for (size_t i = 0; i < n; ++i)
    {
        c = Case(); c.op = "b"; c.n.assign(1, rng.chance(4, 5) ? int(rng.below(3)) : encs[rng.below(sizeof encs / sizeof encs[0])]);
        if (c.n[0] == kSrcUnicode) c.b = gen::randText8(rng);
        else
        {
            const unsigned* t = c.n[0] == kSrcCP1250 ? kCP1250 : kCP1252;
            size_t k = gen::randLen(rng);
            while (c.b.size() < k) { unsigned v = 1 + unsigned(rng.below(255)); if (t[v] || rng.chance(1, 300)) c.b.push_back(char(v)); }
        }
        vm::runHere(c);
        VM_COUNT("random bytes");
    }
    // bytes of a code page that look like text in UTF-8 (or begin with its mark): every code point alone and repeated,
    // runs of code points of one size, whole texts
    auto looks = [&](const std::string& b) { for (int e : { kSrcCP1252, kSrcCP1250, kSrcUnicode }) { c = Case(); c.op = "b"; c.n.assign(1, e); c.b = b; vm::runHere(c); VM_COUNT("UTF-8 given as code page text"); } };
    for (uint32_t cp = 1; cp < 0x110000; cp += cp < 0x20000 ? 1 : 241)
    {
        if (!vm::myTurn() || model::isSur(cp)) continue;
        std::string b, t; model::put8(b, cp); looks(b); looks("a" + b); for (size_t i = 0, k = 2 + rng.below(12); i < k; ++i) t += b; looks(t);
    }
    for (int i = 0; i < (s.thorough ? 100000 : 8000); ++i)
    {
        static const uint32_t lim[] = { 0x80, 0x800, 0x10000, 0x110000 };
        size_t z = rng.below(3), k = 1 + gen::randLen(rng); std::string b, page; bool one = rng.chance(1, 2);
        const unsigned* t = rng.chance(1, 2) ? kCP1250 : kCP1252;
        while (k--)         // with all bytes defined in the code page, so that the result is not empty
            for (int tries = 0; tries < 50; ++tries)
            {
                uint32_t cp = one || rng.chance(1, 2) ? uint32_t(lim[z] + rng.below(lim[z + 1] - lim[z])) : gen::randCp(rng, gen::kUnicode);
                std::string u; if (!model::isSur(cp)) model::put8(u, cp);
                bool ok = !u.empty(); for (unsigned char x : u) ok = ok && t[x];
                if (ok) { b += u; break; }
            }
        if (rng.chance(1, 8)) b = "\xef\xbb\xbf" + b;
        looks(b);
        looks(gen::randText8(rng));
    }
    for (const char* p : { "\xef\xbb\xbf", "\xff\xfe", "\xfe\xff", "+/v8", "\x1b%G", "=?utf-8?Q?" }) { looks(p); looks(std::string(p) + "a"); looks(std::string(p) + "\xe9" "t\xe9"); looks(std::string(p) + "\xc3\xa9"); }
    for (int i = 0; i < (s.thorough ? 20 : 2); ++i) { c = Case(); c.op = "b"; c.n.assign(1, 1 + i % 2); c.b.assign(100000 + rng.below(100000), char(0xA4)); c.b[rng.below(c.b.size())] = char(1 + rng.below(255)); vm::runHere(c); VM_COUNT("very long text"); }
}
Case fuzzCase(const uint8_t* p, size_t n) { Case c; c.op = "b"; c.n.assign(1, n ? *p % 5 : 0); if (n) { ++p; --n; } c.b = gen::fz8(p, n); return c; }
