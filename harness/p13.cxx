// P13: trimming removes exactly the leading and trailing blanks
#include "string.hxx"
#include "string_trim.hxx"
#include "gen.hxx"
using namespace ansak; using vm::Case; using gen::Rng;
const char* const kProperty = "P13";

template <class C> std::basic_string<C> cast(const std::u32string& d) { std::basic_string<C> r; r.reserve(d.size()); for (char32_t v : d) r.push_back(C(v)); return r; }
template <class C, class B> std::basic_string<C> mTrim(const std::basic_string<C>& s, B blank)
{
    size_t a = 0, b = s.size();
    while (a < b && blank(s[a])) ++a;
    while (b > a && blank(s[b - 1])) --b;
    return s.substr(a, b - a);
}
template <class C> void same(const Case& c, const std::basic_string<C>& src, const std::basic_string<C>& got, const std::basic_string<C>& want, const char* what)
{
    if (got == want) { if (want.size() == src.size()) VM_COUNT("nothing to trim"); else if (want.empty()) VM_COUNT("all trimmed"); else VM_COUNT("some trimmed"); return; }
    vm::fail(c, std::string(what) + " of [" + vm::hex(src) + "] gave [" + vm::hex(got) + "], not [" + vm::hex(want) + "]");
}
// trims with either library function, twice
template <class C, class F> void run(const Case& c, const std::basic_string<C>& src, const std::basic_string<C>& want, F trimmer, const char* what)
{
    std::basic_string<C> v = src;
    trimmer(v);
    same(c, src, v, want, what);
    std::basic_string<C> again = v;
    trimmer(again);
    VM_COUNT("trimmed twice");
    if (again != v) vm::fail(c, std::string(what) + " twice gave [" + vm::hex(again) + "] after [" + vm::hex(v) + "]");
}
template <class C> void plain(const Case& c)
{
    // the first n[0] values of d are the set of blanks, the rest is the text; n[0] < 0: the default blank
    long long k = c.n.empty() ? -1 : c.n[0];
    std::basic_string<C> all = cast<C>(c.d);
    if (k < 0)
    {
        run(c, all, mTrim(all, [](C x) { return x == C(' '); }), [](std::basic_string<C>& v) { trim(v); }, "trim");
        return;
    }
    size_t m = std::min<size_t>(size_t(k), all.size());
    const std::basic_string<C> set = all.substr(0, m), text = all.substr(m), keep = set;
    run(c, text, mTrim(text, [&](C x) { for (C y : set) if (x == y) return true; return false; }), [&](std::basic_string<C>& v) { trim(v, set); }, "trim with a set");
    if (set != keep) vm::fail(c, "trim changed the set of blanks");
}
// Unicode trimming: the text keeps everything but blanks at its ends. Five white space characters may or may not
// count as blanks, so the result has to lie between the two readings, and be the same in all encodings.
static bool between(const std::u32string& src, const std::u32string& got)
{
    auto strict = mTrim(src, [](char32_t x) { return model::isBlank(x); });
    auto wide = mTrim(src, [](char32_t x) { return model::isBlank(x) || model::isOpenBlank(x); });
    if (got == strict || got == wide) return true;
    if (strict == wide) return false;
    // some subset of the open ones: the ends of what remains are no blanks, and only blanks went
    if (got.size() > strict.size() || got.size() < wide.size()) return false;
    if (!got.empty() && (model::isBlank(got.front()) || model::isBlank(got.back()))) return false;
    return strict.find(got) != std::u32string::npos;
}
void checkCase(const Case& c)
{
    if (c.op == "c") plain<char>(c);
    else if (c.op == "w") plain<wchar_t>(c);
    else if (c.op == "u") plain<char16_t>(c);
    else if (c.op == "U") plain<char32_t>(c);
    else if (c.op == "ascii")
    {
        std::string s = cast<char>(c.d);
        run(c, s, mTrim(s, [](char x) { return x == 9 || x == 10 || x == 13 || x == 32; }), [](std::string& v) { trimAscii7WhiteSpace(v); }, "trimAscii7WhiteSpace");
    }
    else if (c.op == "uni")
    {
        bool uni = model::allIn(c.d, model::rUnicode), utf8 = model::allIn(c.d, model::rUtf8);
        std::u32string v = c.d; trimWhiteSpace(v);
        if (!between(c.d, v)) vm::fail(c, "trimWhiteSpace of UCS-4 [" + vm::hex(c.d) + "] gave [" + vm::hex(v) + "]");
        std::u32string again = v; trimWhiteSpace(again); if (again != v) vm::fail(c, "trimWhiteSpace of UCS-4 twice differs");
        if (v.size() == c.d.size()) VM_COUNT("nothing to trim"); else if (v.empty()) VM_COUNT("all trimmed"); else VM_COUNT("some trimmed");
        if (utf8)
        {
            std::string b = model::enc8(c.d); trimWhiteSpace(b);
            if (b != model::enc8(v)) vm::fail(c, "trimWhiteSpace of UTF-8 gave [" + vm::hex(b) + "], of UCS-4 [" + vm::hex(v) + "]");
            std::string b2 = b; trimWhiteSpace(b2); if (b2 != b) vm::fail(c, "trimWhiteSpace of UTF-8 twice differs");
            VM_COUNT("UTF-8 and UCS-4 agree");
        }
        if (uni)
        {
            std::u16string w = model::enc16(c.d); trimWhiteSpace(w);
            if (w != model::enc16(v)) vm::fail(c, "trimWhiteSpace of UTF-16 gave [" + vm::hex(w) + "], of UCS-4 [" + vm::hex(v) + "]");
            std::u16string w2 = w; trimWhiteSpace(w2); if (w2 != w) vm::fail(c, "trimWhiteSpace of UTF-16 twice differs");
            VM_COUNT("UTF-16 and UCS-4 agree");
        }
    }
}
static const char* const kT[] = { "c", "w", "u", "U" };
static uint32_t blank(Rng& r)
{
    static const uint32_t b[] = { 9, 10, 13, 32, 0xA0, 0x1680, 0x2000, 0x2001, 0x2002, 0x2003, 0x2004, 0x2005, 0x2006, 0x2007, 0x2008, 0x2009, 0x200A, 0x202F, 0x205F, 0x3000 };
    return b[r.below(sizeof b / sizeof b[0])];
}
void workload()
{
    auto& s = vm::st();
    Rng rng(s.seed * 1000 + s.shard);
    Case c;
    // every code point at both ends and inside, Unicode trimming
    c.op = "uni";
    for (uint32_t v = 1 + s.shard; v < 0x110000; v += s.shards)
    {
        if (model::isSur(v)) continue;
        c.d = { char32_t(v) }; vm::runHere(c);
        c.d = { char32_t(v), U'x', char32_t(v), U'y', char32_t(v) }; vm::runHere(c);
        c.d = { U' ', char32_t(v), U'x', char32_t(v), U'\u3000' }; vm::runHere(c);
        VM_COUNT("every code point at the ends");
    }
    for (uint32_t v : gen::edge32()) { if (!vm::myTurn()) continue; if (model::isSur(v)) continue; c.d = { U' ', char32_t(v), U' ', U'x', char32_t(v), U' ' }; vm::runHere(c); c.d = { char32_t(v) }; vm::runHere(c); VM_COUNT("32-bit value at the ends"); }
    for (uint32_t h = 0x11; h < 0x10000; h += s.thorough ? 1 : 7) { if (!vm::myTurn()) continue; for (uint32_t l : { 9u, 10u, 13u, 32u, 0xA0u, 0x2003u, 0x3000u }) { c.d = { char32_t(h << 16 | l), U'x', char32_t(h << 16 | l) }; vm::runHere(c); } VM_COUNT("blank with other high bits"); }
    // every byte
    for (unsigned v = 0; v < 256; ++v)
        for (const char* op : { "ascii", "c" })
        {
            if (!vm::myTurn()) continue;
            c = Case(); c.op = op; c.n.assign(1, -1);
            c.d = { char32_t(v) }; vm::runHere(c); c.d = { char32_t(v), U'x', char32_t(v) }; vm::runHere(c); c.d = { U' ', char32_t(v), U' ', U'x', U' ', char32_t(v), U' ' }; vm::runHere(c);
            for (unsigned q = 0; q < 256; ++q) { c.n.assign(1, op[0] == 'c' ? 1 : -1); c.d = { char32_t(q), char32_t(v), U'm', char32_t(v) }; vm::runHere(c); }
            VM_COUNT("every byte at the ends");
        }
    // every text up to 6 over {blank, other blank, letter, NUL}
    size_t maxLen = s.thorough ? 9 : 6;
    for (size_t len = 0; len <= maxLen; ++len)
        for (size_t k = 0, cnt = size_t(1) << (2 * len); k < cnt; ++k)
        {
            if (!vm::myTurn()) continue;
            const char32_t al[4] = { U' ', U'\t', U'x', U'\0' };
            std::u32string d; for (size_t i = 0, x = k; i < len; ++i, x /= 4) d.push_back(al[x % 4]);
            for (const char* t : kT) { c = Case(); c.op = t; c.d = d; c.n.assign(1, -1); vm::runHere(c); c.d = U" \t" + d; c.n.assign(1, 2); vm::runHere(c); if (rng.chance(1, 4)) { c.d = std::u32string(U"\0x", 2) + d; vm::runHere(c); c.d = d; c.n.assign(1, 0); vm::runHere(c); } }
            c = Case(); c.op = "ascii"; c.d = d; vm::runHere(c);
            if (d.find(U'\0') == std::u32string::npos) { c.op = "uni"; vm::runHere(c); }
            VM_COUNT("all short texts");
        }
    for (size_t len : gen::padLens(s.thorough, s.thorough ? 16 : 12))
    {
        if (!vm::myTurn()) continue;
        for (int q = 0; q < 9; ++q)
        {
            uint32_t bl = blank(rng); bool uni = q < 4;
            if (!uni) bl = q == 8 ? U"\t\n\r "[rng.below(4)] : ' ';
            c = Case(); c.op = uni ? "uni" : q == 8 ? "ascii" : kT[q - 4]; c.n.assign(1, -1);
            std::u32string run(len, char32_t(bl));
            c.d = run; vm::runHere(c); c.d = run + U'k'; vm::runHere(c); c.d = U'k' + run; vm::runHere(c); c.d = run + U"k" + run + U"k" + run; vm::runHere(c);
            c.d = U' ' + std::u32string(len, U'k') + U' '; vm::runHere(c);
        }
        VM_COUNT("length around a block size");
    }
    gen::combos(gen::kAny31, [&](const std::u32string& t) {
        c = Case(); c.op = "uni"; c.d = t; vm::runHere(c); c.d = U' ' + t + U'\u2003'; vm::runHere(c); c.d = t + U'x' + t; vm::runHere(c);
        c.op = kT[rng.below(4)]; c.n.assign(1, -1); vm::runHere(c); c.d = std::u32string{ t[0], U'#' } + t + U'x' + t + t[0]; c.n.assign(1, 2); vm::runHere(c);
    });
    for (size_t len : gen::freshLong(500000)) if (vm::myTurn()) for (const char* op : { "uni", "ascii", kT[len % 4] }) { c = Case(); c.op = op; c.n.assign(1, -1); std::u32string r(len, U' '), k(len, U'k'); c.d = r + U'k'; vm::runHere(c); c.d = U'k' + r; vm::runHere(c); c.d = U' ' + k + U' '; vm::runHere(c); c.d = r; vm::runHere(c); }
    // large and repetitive sets of blanks
    for (size_t len : gen::padLens(false, 10))
    {
        if (!vm::myTurn()) continue;
        std::u32string set; for (size_t j = 0; j < len; ++j) set.push_back(rng.chance(1, 3) ? char32_t(rng.below(256)) : char32_t(0x100 + j));
        std::u32string body; for (size_t j = 0; j < 9; ++j) body.push_back(len && rng.chance(2, 3) ? set[rng.chance(1, 2) ? len - 1 : rng.below(len)] : U'k');
        for (int q = 0; q < 4; ++q) { c = Case(); c.op = kT[q]; c.n.assign(1, (long long)len); c.d = set + body; vm::runHere(c); c.d = set + (len ? std::u32string(3, set[len - 1]) : std::u32string()) + U"kk" + (len ? std::u32string(3, set[len - 1]) : std::u32string()); vm::runHere(c); }
        VM_COUNT("large set of blanks");
    }
    size_t n = s.thorough ? 6000000 : 500000;
    for (size_t i = 0; i < n; ++i)
    {
        c = Case();
        unsigned k = unsigned(rng.below(7));
        std::u32string body = gen::randText(rng, k == 6 ? (rng.chance(1, 4) ? gen::kAny31 : gen::kUnicode) : gen::kAny32);
        if (k == 6)
        {
            c.op = "uni";
            auto some = [&] { std::u32string r; size_t m = rng.below(6); for (size_t j = 0; j < m; ++j) r.push_back(rng.chance(1, 20) ? U'\x0b' : char32_t(blank(rng))); return r; };
            for (auto& v : body) if (rng.chance(1, 10)) v = blank(rng);
            c.d = some() + body + some();
        }
        else if (k == 5) { c.op = "ascii"; for (auto& v : body) if (rng.chance(1, 3)) v = U"\t\n\r \v\f\0"[rng.below(7)]; c.d = std::u32string(rng.below(5), rng.chance(1, 2) ? U' ' : U'\r') + body + std::u32string(rng.below(5), U'\n'); }
        else
        {
            c.op = kT[k % 4];
            if (rng.chance(1, 3)) { c.n.assign(1, -1); c.d = std::u32string(rng.below(5), U' ') + body + std::u32string(rng.below(5), U' '); }
            else
            {
                std::u32string set; size_t m = rng.below(7); for (size_t j = 0; j < m; ++j) set.push_back(rng.chance(1, 2) && !body.empty() ? body[rng.below(body.size())] : char32_t(rng.chance(1, 6) ? 0 : rng.below(300)));
                if (!set.empty()) { for (size_t j = rng.below(4); j--;) body.insert(body.begin(), set[rng.below(m)]); for (size_t j = rng.below(4); j--;) body.push_back(set[rng.below(m)]); }
                c.n.assign(1, (long long)set.size()); c.d = set + body;
            }
        }
        vm::runHere(c);
        VM_COUNT("random text");
    }
    for (size_t i = 0; i < (s.thorough ? 40u : 4u); ++i)
    {
        unsigned k = unsigned(rng.below(6)); c = Case(); c.op = k < 4 ? kT[k] : k == 4 ? "ascii" : "uni"; c.n.assign(1, -1);
        auto run = [&](size_t m) { std::u32string r(m, U' '); if (k >= 4) for (auto& v : r) if (rng.chance(1, 3)) v = k == 4 ? U"\t\n\r "[rng.below(4)] : char32_t(blank(rng)); return r; };
        std::u32string body = gen::longMix(rng, k == 5 ? gen::kUnicode : gen::kAny32); for (int q = 0; q < 300; ++q) body[rng.below(body.size())] = U' ';
        c.d = run(rng.below(5)) + body + run(rng.below(5)); vm::runHere(c);
        c.d = run(70000 + rng.below(9000)) + body + run(3); vm::runHere(c); c.d = run(2) + body + run(140000); vm::runHere(c); c.d = run(70000); vm::runHere(c);
        VM_COUNT("very long text");
    }
}
Case fuzzCase(const uint8_t* p, size_t n)
{
    Case c; if (n < 2) { c.op = "c"; return c; }
    unsigned k = *p++ % 8; n--;
    if (k < 4) { c.op = kT[k]; c.n.assign(1, (long long)(*p++ % 5) - 1); n--; for (size_t i = 0; i < n; ++i) c.d.push_back(p[i]); }
    else if (k < 6) { c.op = "ascii"; for (size_t i = 0; i < n; ++i) c.d.push_back(p[i]); }
    else { c.op = "uni"; if (k == 6) { for (char32_t v : model::dec8(gen::fz8(p, n)).cps) c.d.push_back(v); } else for (char16_t v : gen::fz16(p, n)) if (!model::isSur(v)) c.d.push_back(v); }
    return c;
}
