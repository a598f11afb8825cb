// P06: length-bounded scans never look past their bound
#include "string.hxx"
#include "gen.hxx"
#include "ranges.hxx"
#include <memory>
#if defined(__SANITIZE_ADDRESS__)
#define VM_ASAN
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VM_ASAN
#endif
#endif
using namespace ansak; using vm::Case; using gen::Rng;
const char* const kProperty = "P06";

static const EncodingCheckPredicate& pred(int i)
{
    static EncodingCheckPredicate p[3] = { EncodingCheckPredicate(), validIf(kIsAssigned), validIfNot(kIsControl).andIfNot(kIsPrivate) };
    return p[i];
}
static bool modelPred(int i, uint32_t c)
{
    unsigned m = model::classes(c, vm::st().version);
    return i == 0 || (i == 1 ? (m & model::cAssigned) != 0 : (m & (model::cControl | model::cPrivate)) == 0);
}

// answers of the length-bounded forms; bit per validity question, the count apart
struct Ans { unsigned valid, count; bool operator!=(const Ans& o) const { return valid != o.valid || count != o.count; } };
static std::string show(const Ans& a) { return "valid bits " + std::to_string(a.valid) + ", count " + std::to_string(a.count); }

static Ans ask(const char* p, unsigned n)
{
    Ans a; a.valid = isUtf8(p, n) ? 1 : 0;
    for (int i = 0; i < 3; ++i) if (isUtf8(p, n, pred(i))) a.valid |= 2u << i;
    a.count = unicodeLength(p, n);
    return a;
}
static Ans ask(const char16_t* p, unsigned n) { return Ans{ 0, unicodeLength(p, n) }; }
static Ans ask(const char32_t* p, unsigned n) { return Ans{ 0, unicodeLength(p, n) }; }
static Ans askZ(const char* p)
{
    Ans a; a.valid = isUtf8(p) ? 1 : 0;
    for (int i = 0; i < 3; ++i) if (isUtf8(p, kUtf8, pred(i))) a.valid |= 2u << i;
    a.count = unicodeLength(p);
    return a;
}
static Ans askZ(const char16_t* p) { return Ans{ 0, unicodeLength(p) }; }
static Ans askZ(const char32_t* p) { return Ans{ 0, unicodeLength(p) }; }
static model::Text dec(const std::string& s) { return model::dec8(s); }
static model::Text dec(const std::u16string& s) { return model::dec16(s); }
static model::Text dec(const std::u32string& s) { return model::dec32(s); }

template <class C> const std::vector<std::basic_string<C>>& followers();
template <> const std::vector<std::string>& followers<char>()
{
    static const std::vector<std::string> v = { std::string(8, '\0'), "\x80\x80\x80\x80\x80\x80\x80\x80", "\xbf\xbf\xbf\xbf\xbf\xbf", "AAAAAAAA", "\xed\xb0\x80\xed\xb0\x80", "\xed\xa0\x80\xed\xb0\x80", "\xff\xfe\xff", "\xa0\x80\xed\xb0\x80" };
    return v;
}
template <> const std::vector<std::u16string>& followers<char16_t>()
{
    static const std::vector<std::u16string> v = { std::u16string(4, u'\0'), std::u16string(4, char16_t(0xDC00)), std::u16string(4, char16_t(0xD800)), u"AAAA", std::u16string(3, char16_t(0xDFFF)), std::u16string(3, char16_t(0xFFFF)) };
    return v;
}
template <> const std::vector<std::u32string>& followers<char32_t>()
{
    static const std::vector<std::u32string> v = { std::u32string(3, U'\0'), std::u32string(3, char32_t(0xDC00)), U"AAAA", std::u32string(3, char32_t(0xFFFFFFFF)), std::u32string(3, char32_t(0x110000)) };
    return v;
}

template <class C> void check(const Case& c, const std::basic_string<C>& text)
{
    size_t n = c.n.empty() ? text.size() : size_t(c.n[0]);
    if (n == 0 || n > text.size()) return;
    std::basic_string<C> in = text.substr(0, n), rest = text.substr(n);
    Ans a = ask(gen::guard().bare(in.data(), n), unsigned(n));      // a touch of the next unit is a SIGSEGV
    VM_COUNT("bound at an inaccessible page");
    auto around = [&](const std::basic_string<C>& f, const char* what) {
        std::basic_string<C> all = in + f;
        Ans b = ask(gen::guard().front(all.data(), all.size()), unsigned(n));
        VM_COUNT("surroundings changed");
        if (a != b) vm::fail(c, std::string("bound ") + std::to_string(n) + ": " + show(a) + " with nothing after the bound, " + show(b) + " with " + what + " [" + vm::hex(f.substr(0, 16)) + "]");
    };
    if (!rest.empty()) around(rest.substr(0, 64), "the rest of the text");
    // long texts get two of the surroundings, chosen by their content
    auto& fs = followers<C>();
    if (n <= 24) for (auto& f : fs) around(f, "other units");
    else { size_t k = (n * 31 + size_t(in[n - 1])) % fs.size(); around(fs[k], "other units"); if (n <= 2000) around(fs[(k + 1 + n / 3 % (fs.size() - 1)) % fs.size()], "other units"); }
#if defined(VM_ASAN)
    // exactly the bound's memory, at every alignment: a touch of one byte more, even inside an aligned word, is a report
    if (n <= 3000) for (size_t k = 0; k < 8; k += n > 300 ? 1 + size_t(in[0]) % 7 : 1)
    {
        std::unique_ptr<C[]> heap(new C[k + n]);
        std::copy(in.begin(), in.end(), heap.get() + k);
        Ans b = ask(heap.get() + k, unsigned(n));
        VM_COUNT("bound at the end of an exact allocation, under AddressSanitizer");
        if (a != b) vm::fail(c, std::string("bound ") + std::to_string(n) + ": " + show(a) + " at one address, " + show(b) + " at another");
    }
#endif
    model::Text t = dec(in);
    if (t.tail == model::kNone)
    {
        Ans z = askZ(gen::guard().z(in));
        VM_COUNT("compared with the terminated form");
        if (a != z) vm::fail(c, "bound " + std::to_string(n) + ": " + show(a) + ", but " + show(z) + " for the same units with a terminator");
    }
    else
    {
        VM_COUNT("bound inside a sequence");
        if (sizeof(C) == 1)
            for (int i = 0; i < 3; ++i)
            {
                model::Verdict v = model::is8(t, model::rUtf8, [i](char32_t k) { return modelPred(i, k); });
                if (v != model::vOpen && ((a.valid >> (i + 1)) & 1) != (v == model::vTrue))
                    vm::fail(c, "bound " + std::to_string(n) + " inside a sequence, condition " + std::to_string(i) + ": answered " + vname(v != model::vTrue));
            }
    }
}
void checkCase(const Case& c)
{
    if (c.op == "huge")     // more units than a signed 32-bit counter can hold, and then nothing accessible
    {
        size_t n = size_t(c.n[0]);
        gen::Huge<char> h("x", n, false);
        auto say = [&](unsigned k, bool want) { gen::Huge<char>::judge([&] { bool got = isUtf8(h.text(), k); VM_COUNT("bound of billions of units"); if (got != want) vm::fail(c, "bound " + std::to_string(k) + " of billions of bytes: answered " + vname(got)); }); };
        say(unsigned(n), true); say(unsigned(n - 1), true); h.endWith("\xff"); say(unsigned(n), false);
        return;
    }
    if (c.op == "u8") check(c, c.b); else if (c.op == "u16") check(c, c.w); else if (c.op == "u32") check(c, c.d);
}

template <class C> void each(Rng& rng, const char* op, const std::basic_string<C>& t, std::basic_string<C> Case::* m)
{
#if defined(VM_ASAN)
    if (t.size() > 3000 || !rng.chance(1, vm::st().thorough ? 2 : 12)) return;      // a sample of them under the sanitizers
#endif
    Case c; c.op = op; c.*m = t;
    auto at = [&](size_t n) { if (n == 0 || n > t.size()) return; c.n.assign(1, (long long)n); vm::runHere(c); };
    if (t.size() <= 12) { for (size_t n = 1; n <= t.size(); ++n) at(n); return; }
    for (size_t n = t.size() - (t.size() > 3000 ? 1 : 7); n <= t.size(); ++n) at(n);
    if (t.size() <= 3000) { at(1 + rng.below(t.size())); at(1 + rng.below(t.size())); at(1 + rng.below(8)); }
}

void workload()
{
    auto& s = vm::st();
    Rng rng(s.seed * 1000 + s.shard);
    Case c;
#if !defined(VM_ASAN)
    for (long long u : { 0x80000003ll, 0xFFFFFFFFll }) { if (u > 0x80000003ll && !s.thorough) break; c.op = "huge"; c.n.assign(1, u); if (vm::myTurn()) vm::runHere(c); }
#endif
    c.op = "u8";
    auto fast = [&](const std::string& t) { c.b = t; c.n.assign(1, (long long)t.size()); vm::runHere(c); };
    for (unsigned a = 1; a < 256; ++a) { if (vm::myTurn()) { fast(std::string(1, char(a))); for (unsigned b = 1; b < 256; ++b) { fast(std::string{ char(a), char(b) }); } VM_COUNT("all continuations of a first byte"); } }
    auto& al = gen::alpha8();
    size_t deep = s.thorough ? 4 : 3;
    std::vector<size_t> idx(deep, 0);
    for (unsigned char a : al) for (unsigned char b : al)
    {
        if (!vm::myTurn()) continue;
        for (unsigned char d : al)
        {
            fast(std::string{ char(a), char(b), char(d) });
#if !defined(VM_ASAN)
            for (unsigned char e : al) { if (a < 0xC0 && !s.thorough) break; fast(std::string{ char(a), char(b), char(d), char(e) }); if (s.thorough && a >= 0xED) for (unsigned char f : al) { fast(std::string{ char(a), char(b), char(d), char(e), char(f) }); } }
#endif
        }
        VM_COUNT("all short texts over the edge alphabet");
    }
    size_t n = s.thorough ? 1000000 : 30000;
    gen::texts8(rng, n, [&](const std::string& t) { each(rng, "u8", t, &Case::b); }, s.thorough ? 13 : 9);
    gen::texts16(rng, n, [&](const std::u16string& t) { each(rng, "u16", t, &Case::w); }, s.thorough ? 13 : 9);
    gen::texts32(rng, n, [&](const std::u32string& t) { each(rng, "u32", t, &Case::d); }, s.thorough ? 13 : 9);
}
Case fuzzCase(const uint8_t* p, size_t n)
{
    Case c; unsigned k = n ? *p % 3 : 0, at = n > 1 ? p[1] : 0;
    if (n > 1) { p += 2; n -= 2; } else n = 0;
    size_t len;
    if (k == 0) { c.op = "u8"; c.b = gen::fz8(p, n); len = c.b.size(); }
    else if (k == 1) { c.op = "u16"; c.w = gen::fz16(p, n); len = c.w.size(); }
    else { c.op = "u32"; c.d = gen::fz32(p, n); len = c.d.size(); }
    c.n.push_back(len ? (long long)(len - at % std::min<size_t>(len, 16)) : 0);
    return c;
}
