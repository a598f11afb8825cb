// P11: lower-casing respects the language and agrees across encodings
#include "string.hxx"
#include "gen.hxx"
#include "ranges.hxx"
using namespace ansak; using vm::Case; using gen::Rng;
const char* const kProperty = "P11";

static const char* const kTurkic[] = { "az", "aze", "azj", "azb", "kk", "kaz", "tt", "tat", "tr", "tur" };
static gen::Guard& langGuard() { static gen::Guard g(1 << 16); return g; }

// op "lang": s is the language; d a text
// op "u8", "u16": arbitrary units in b or w, language in s; n[0] != 0: no language at all
void checkCase(const Case& c)
{
    const char* lang = c.n.empty() || !c.n[0] ? langGuard().z(c.s) : nullptr;   // a read past the terminator is a SIGSEGV
    bool turkic = model::turkicLang(lang);
    if (c.op == "lang")
    {
        if (turkic) VM_COUNT("Turkic language"); else VM_COUNT("other language");
        std::u32string got = toLower(c.d, lang), plain = toLower(c.d);
        std::u32string want = plain;
        if (want.size() != c.d.size()) { vm::fail(c, "UCS-4: the number of code points changed"); return; }
        // against the ordinary mapping, so that only what the language changes is judged here
        for (size_t i = 0; i < c.d.size(); ++i) { if (c.d[i] == 0x49) want[i] = turkic ? 0x131 : 0x69; else if (c.d[i] == 0x130) want[i] = 0x69; }
        if (got != want) { vm::fail(c, "language \"" + c.s + "\": [" + vm::hex(c.d) + "] became [" + vm::hex(got) + "], not [" + vm::hex(want) + "]"); return; }
        if (lang)
        {
            std::u32string again = toLower(got, lang);
            if (again != got) vm::fail(c, "lower-casing again changes the result [" + vm::hex(got) + "] to [" + vm::hex(again) + "]");
            VM_COUNT("lowered twice");
        }
        if (model::allIn(c.d, model::rUnicode))
        {
            std::string b = toLower(model::enc8(c.d), lang); std::u16string w = toLower(model::enc16(c.d), lang);
            if (b != model::enc8(want)) vm::fail(c, "language \"" + c.s + "\": UTF-8 gave [" + vm::hex(b) + "], not the code points of UCS-4");
            if (w != model::enc16(want)) vm::fail(c, "language \"" + c.s + "\": UTF-16 gave [" + vm::hex(w) + "], not the code points of UCS-4");
            if (toLower(b, lang) != b || toLower(w, lang) != w) vm::fail(c, "lower-casing again changes the result in UTF-8 or UTF-16");
            VM_COUNT("three encodings agree");
        }
    }
    else
    {
        model::Text t = c.op == "u8" ? model::dec8(c.b) : model::dec16(c.w);
        std::string b; std::u16string w;
        if (c.op == "u8") b = toLower(c.b, lang); else w = toLower(c.w, lang);
        if (!t.valid) { VM_COUNT("malformed text lowered"); if (!b.empty() || !w.empty()) vm::fail(c, "malformed text lowered to something"); return; }
        if (t.tail == model::kDoomed || t.lo > 0x10FFFF) { VM_COUNT("not judged"); return; }
        VM_COUNT("valid text lowered");
        std::u32string want = toLower(t.cps, lang);
        if (c.op == "u8" ? b != model::enc8(want) : w != model::enc16(want))
        {
            // an incomplete end is dropped, or the whole is refused
            if (t.tail != model::kNone && b.empty() && w.empty()) return;
            vm::fail(c, "lowered to [" + vm::hex(b) + vm::hex(w) + "], not to the lower-case of its code points [" + vm::hex(want) + "]");
        }
    }
}
void workload()
{
    auto& s = vm::st();
    Rng rng(s.seed * 1000 + s.shard + 17 * s.version);
    bool full = s.version == 16 || s.thorough;
    Case c; c.op = "lang";
    const std::u32string probe = { U'I', 0x130, U'i', 0x131, U'A', U'I', U'Z', 0x130 };
    Case none = c; none.n.assign(1, 1); none.d = probe; vm::runHere(none);
    auto lang = [&](const std::string& l) { c.s = l; c.d = probe; vm::runHere(c); };
    if (vm::myTurn()) { lang(""); for (auto l : kTurkic) lang(l); }
    // every language string of up to three bytes
    {
        Case q; q.op = "lang"; q.d = { U'I', 0x130 };
        std::u32string text = q.d;
        s.cur = &q;
        for (unsigned a = 1; a < 256; ++a)
        {
            if (a % s.shards != s.shard) continue;
            auto fast = [&](const char* l, size_t n) {
                char buf[8]; memcpy(buf, l, n); buf[n] = 0;
                bool tk = model::turkicLang(buf);
                std::u32string r = toLower(text, buf);
                vm::fastEval(true);
                if (r.size() != 2 || r[0] != (tk ? 0x131u : 0x69u) || r[1] != 0x69) { q.s.assign(l, n); vm::runHere(q); }
            };
            char l[4] = { char(a) };
            fast(l, 1);
            for (unsigned b = 1; b < 256; ++b)
            {
                l[1] = char(b); fast(l, 2);
                bool some = full || (a < 128 && isalpha(int(a)) && b < 128 && isalpha(int(b)));
                if (some) for (unsigned d = 1; d < 256; ++d) { l[2] = char(d); fast(l, 3); }
            }
            VM_COUNT("all languages with a first byte");
        }
        s.cur = nullptr;
    }
    // four bytes over the letters of the codes, and variants of the codes
    const std::string al = "azejbkturAZTK-_";
    for (char a : al) for (char b : al) { if (!vm::myTurn()) continue; for (char d : al) for (char e : al) { c.s = { a, b, d, e }; c.d = { U'I', 0x130, U'B' }; vm::runHere(c); } VM_COUNT("four letter languages"); }
    for (auto t : kTurkic)
    {
        std::string k = t;
        for (const std::string& l : { k + "-TR", k + "_TR", k + "-Latn-AZ", k + " ", " " + k, k + ".UTF-8", k + "k", k + k, std::string(1, k[0]), k.substr(0, 2), k + "\x80", k + "@euro", "x-" + k, k + "\t", k + "-", k + "r" })
            if (vm::myTurn()) { lang(l); VM_COUNT("variant of a Turkic code"); }
        std::string u = k; for (auto& ch : u) ch = char(toupper(ch)); if (vm::myTurn()) lang(u);
        u = k; u[0] = char(toupper(u[0])); if (vm::myTurn()) lang(u);
        for (unsigned e = 1; e < 256; ++e) if (vm::myTurn()) { lang(k + char(e)); lang(std::string(1, char(e)) + k); lang(k + char(e) + "x"); }
    }
    for (size_t len = 0; len < 70; ++len) if (vm::myTurn()) { lang(std::string(len, 't')); lang("tr" + std::string(len, 'x')); lang(std::string(len, 'a') + "az"); VM_COUNT("long language"); }
    for (auto& d : gen::dict().strs) if (vm::myTurn()) { std::string l = gen::noNul(d); if (l.size() < 1000) { lang(l); lang(l + "r"); lang(l.substr(0, 2)); lang(l.substr(0, 3)); } VM_COUNT("dictionary string as language"); }
    for (const char* l : { "en", "de", "lt", "lit", "uz", "uzb", "ba", "crh", "tk", "tuk", "sah", "C", "POSIX", "tr_TR", "az-Latn", "root", "und", "ku", "kmr", "gag", "ky", "kir", "zz", "aza", "azz", "tu", "ta", "ka", "kz", "t", "k", "a" })
        if (vm::myTurn()) lang(l);
    // every code point, with each Turkic language and a few others
    std::vector<std::string> ls(kTurkic, kTurkic + 10); ls.push_back("en"); ls.push_back("lt"); ls.push_back("");
    std::vector<uint32_t> all; for (uint32_t v = 1 + s.shard; v < 0x110000; v += s.shards) if (!model::isSur(v)) all.push_back(v);
    for (size_t li = 0; li < ls.size(); ++li)
    {
        if (!full && li % 4 != s.shard % 4) continue;
        for (size_t i = 0; i < all.size();)
        {
            size_t k = 1 + rng.below(400); c.d.clear(); c.s = ls[li];
            for (size_t j = 0; j < k && i < all.size(); ++j) { c.d.push_back(all[i++]); if (rng.chance(1, 60)) c.d.push_back(rng.chance(1, 2) ? U'I' : U'\u0130'); }
            vm::runHere(c);
        }
        VM_COUNT("all code points with a language");
    }
    // languages with casing rules of their own, and every two letters, on all cased letters in context
    {
        const size_t nl = sizeof model::kLower / sizeof model::kLower[0];
        std::u32string cased;
        for (size_t i = 0; i < nl; ++i) { cased.push_back(model::kLower[i][0]); if (i % 7 == 0) cased.push_back(U"\u0300\u0301\u0303\u0307\u0308\u0345\u0328"[i / 7 % 7]); }
        cased += U"I\u0300J\u0301\u012E\u0303\u00CC\u00CD\u0128I\u0307i\u0307\u0130\u0307\u1E9E\u00DFIJ\u0132Ij\u0391\u03A3 \u03A3\u0391\u03A3'\u0391\u03A3";
        auto with = [&](const std::string& l) { c = Case(); c.op = "lang"; c.s = l; c.d = cased; vm::runHere(c); VM_COUNT("all cased letters with a language"); };
        for (char a = 'a'; a <= 'z'; ++a) for (char b = 'a'; b <= 'z'; ++b) if (full ? vm::myTurn() : (a + b) % 8 == int(s.shard)) with({ a, b });
        for (int i = 0; i < (s.thorough ? 20000 : full ? 300 : 20); ++i) { std::string l; for (size_t k = 1 + rng.below(5); k--;) l.push_back(char('a' + rng.below(26))); with(l); }
        for (const char* l : { "deu", "ger", "lit", "nld", "dut", "ell", "gre", "grc", "hye", "gle", "ga", "isl", "dan", "swe", "vie", "en-US", "de-DE", "de-CH", "lt-LT", "nl-NL", "el-GR", "nl_BE", "tr-TR", "az-AZ", "C", "root" }) if (vm::myTurn()) with(l);
        for (auto* v : { &gen::dict().strs, &gen::dict().freshStrs }) for (auto& d : *v) if (d.size() < 40 && vm::myTurn()) with(gen::noNul(d));
        static const char* const special[] = { "", "en", "tr", "aze", "lt", "de", "nl", "el", "kk", "fr" };
        // real words, alone, twice, quoted and followed by other things
        static const char32_t* const words[] = { U"\u039F\u0394\u03A5\u03A3\u03A3\u0395\u03A5\u03A3", U"\u039A\u038C\u03A3\u039C\u039F\u03A3", U"\u0391\u03A3", U"\u03A3", U"\u0399\u0308\u0301\u03A3", U"\u03A3\u0391\u03A3", U"STRASSE", U"STRA\u1E9EE", U"GRO\u1E9E", U"IJSSEL", U"\u0132SSEL", U"ISTANBUL", U"\u0130STANBUL", U"DIYARBAKIR", U"D\u0130YARBAKIR",
            U"I\u0307STANBUL", U"\u012E\u0300", U"J\u0303\u0301", U"\u00CC\u00CD\u0128", U"BAILE \u00C1THA CLIATH", U"tSeachtain nAthair", U"\u0535\u0552", U"\u0544\u0536", U"\u10A0\u10B1", U"\u1C90\u1C91\u1C92", U"\u13A0\u13B1\u13F5", U"\U00010400\U00010427", U"\U0001E900\U0001E921", U"\u0130", U"I", U"II", U"III", U"\u0130\u0130", U"\u2160\u2162", U"\u24B6\u24CF", U"\uFF21\uFF3A", U"\u1F88\u1FBC\u1FCC", U"\u212A\u212B\u2126", U"\u01C4\u01C5\u01C7", U"\u00C5NGSTR\u00D6M", U"A\u030ANGSTRO\u0308M", U"\u0410\u042F\u0406\u0407", U"I\u0407\u0130\u0131" };
        for (auto w : words) for (const char32_t* suf : { U"", U" ", U".", U"x", U"\u0301", U"\u03A3", U"'S", U"\u00AD", U"\u200D", U"\U0001F600", U"I", U"1" }) for (const char32_t* pre : { U"", U"x", U"\u0391", U" ", U"\u0301", U"'" })
        {
            if (!vm::myTurn()) continue;
            c = Case(); c.op = "lang"; c.d = std::u32string(pre) + w + suf; for (const char* l : { "", "en", "tr", "az", "lt", "de", "nl", "el" }) { c.s = l; vm::runHere(c); }
            c.d += U" "; c.d += w; vm::runHere(c); VM_COUNT("word");
        }
        gen::combos(gen::kUnicode, [&](const std::u32string& t) { if (!full && !rng.chance(1, 6)) return; c = Case(); c.op = "lang"; c.s = special[rng.below(10)]; c.d = t; vm::runHere(c); c.s = special[2 + rng.below(3)]; vm::runHere(c); });
    }
    c = Case(); c.op = "lang";
    // arbitrary text and units
    size_t n = (s.thorough ? 2000000 : 200000) / (full ? 1 : 6);
    auto anyLang = [&]() -> std::string { switch (rng.below(6)) { case 0: return ""; case 1: return "en"; case 2: { static const char* const o[] = { "lt", "de", "nl", "el", "fr", "uz", "crh", "hy", "trk", "azer" }; return o[rng.below(10)]; }
        case 3: if (!gen::dict().freshStrs.empty()) return gen::noNul(gen::dict().freshStrs[rng.below(gen::dict().freshStrs.size())]); // fall through
        default: return kTurkic[rng.below(10)]; } };
    for (size_t i = 0; i < n; ++i)
    {
        Case q; q.s = anyLang(); if (rng.chance(1, 5)) q.n.assign(1, 1);
        switch (rng.below(4))
        {
        case 0: q.op = "u8"; q.b = gen::randText8(rng); break;
        case 1: q.op = "u16"; q.w = gen::randText16(rng); break;
        default: q.op = "lang"; q.d = gen::randText(rng, rng.chance(1, 4) ? gen::kAny32 : gen::kUnicode); for (auto& v : q.d) if (rng.chance(1, 8)) v = rng.chance(1, 2) ? U'I' : U'\u0130'; break;
        }
        vm::runHere(q);
    }
    for (size_t len : gen::padLens(s.thorough, s.thorough ? 14 : full ? 11 : 7))
        for (uint32_t pad : { 0x61u, 0xE9u, 0x20ACu, 0x10428u, 0x49u })
        {
            if (!vm::myTurn()) continue;
            c.s = anyLang(); c.d.assign(len, char32_t(pad)); c.d += U"I\u0130"; vm::runHere(c); c.d += U"Ix"; vm::runHere(c);
            VM_COUNT("dotted and dotless at offset");
        }
    for (size_t i = 0; i < (s.thorough ? 30u : full ? 3u : 1u); ++i)
    {
        Case q; q.s = anyLang(); q.op = "lang"; q.d = gen::longMix(rng, gen::kUnicode); if (i % 2) q.d.append(70000, U'I'); for (int k = 0; k < 900; ++k) q.d[rng.below(q.d.size())] = rng.chance(1, 2) ? U'I' : U'\u0130'; vm::runHere(q);
        q = Case(); q.s = anyLang(); q.op = "u8"; q.b = model::enc8(gen::longMix(rng, gen::kUnicode)); q.b.insert(rng.below(q.b.size()), gen::shapes8().all[rng.below(gen::shapes8().all.size())]); vm::runHere(q);
        q = Case(); q.s = anyLang(); q.op = "u16"; q.w = model::enc16(gen::longMix(rng, gen::kUnicode)); q.w.insert(rng.below(q.w.size()), gen::shapes16()[rng.below(gen::shapes16().size())]); vm::runHere(q);
        VM_COUNT("very long text");
    }
    if (full) for (auto* l : { &gen::shapes8().bad, &gen::shapes8().partial, &gen::shapes8().valid }) for (auto& sh : *l)
        for (size_t pad = 0; pad < 20; ++pad)
        {
            if (!vm::myTurn()) continue;
            Case q; q.op = "u8"; q.s = anyLang(); q.b = std::string(pad, 'I') + sh; vm::runHere(q); q.b += "I"; vm::runHere(q);
            VM_COUNT("shape among letters");
        }
    if (full) for (auto& sh : gen::shapes16()) for (size_t pad = 0; pad < 20; ++pad)
    {
        if (!vm::myTurn()) continue;
        Case q; q.op = "u16"; q.s = anyLang(); q.w = std::u16string(pad, u'I') + sh; vm::runHere(q); q.w += u"I"; vm::runHere(q);
    }
}
Case fuzzCase(const uint8_t* p, size_t n)
{
    Case c; if (n < 2) { c.op = "lang"; c.d = U"I"; return c; }
    unsigned k = *p++ % 4; size_t ll = *p++ % 8; n -= 2; ll = std::min(ll, n);
    c.s = gen::fz8(p, ll); p += ll; n -= ll;
    if (k == 0) { c.op = "u8"; c.b = gen::fz8(p, n); }
    else if (k == 1) { c.op = "u16"; c.w = gen::fz16(p, n); }
    else { c.op = "lang"; c.d = gen::fz32(p, n); if (k == 3) for (auto& v : c.d) { v &= 0x1FFFF; if (!v || model::isSur(v)) v = 'I'; } }
    return c;
}
