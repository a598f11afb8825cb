// api.hxx -- the table of operations (ops.hxx) and random arguments for it. Used where the question is not what an operation answers but how it
// behaves (memory, purity, allocation failure, work).
#pragma once
#include "string.hxx"
#include "string_splitjoin.hxx"
#include "string_trim.hxx"
#include "internal/string_decode_utf8.hxx"
#include "ops.hxx"
#include "gen.hxx"
#include "ranges.hxx"

namespace api {

// owns the arguments of one case
struct Args
{
    std::string b; std::u16string w; std::u32string d; std::wstring ww;
    std::string lang; bool noLang = true, nulls = false;
    ansak::EncodingCheckPredicate pred;
    std::string set8; std::u16string set16; std::u32string set32; std::wstring setw;
    std::vector<std::string> p8; std::vector<std::u16string> p16; std::vector<std::u32string> p32; std::vector<std::wstring> pwd;
    std::string vb; std::u16string vw; std::u32string vd; std::wstring vww;     // victims
    long long range = 1, et = 0, et2 = 0, src = 0; uint32_t delim = ',';
    void derive()       // what follows from the texts
    {
        ww.clear(); for (char32_t v : d) ww.push_back(wchar_t(v));
        set8 = " \t" + b.substr(0, 2); set16 = u" \t" + w.substr(0, 2); set32 = U" \t" + d.substr(0, 2); setw = L" \t" + ww.substr(0, 2);
        auto cut = [](const auto& s, auto& out) { out.clear(); for (size_t i = 0; i < s.size(); i += 3) out.push_back(s.substr(i, i % 5 % 4)); };
        cut(b, p8); cut(w, p16); cut(d, p32); cut(ww, pwd);
        victims();
    }
    void victims()
    {
        vb = "  \t" + b + " \n"; vw = u" \u3000" + w + u"\t  "; vd = U" \u2003" + d + U" \r "; vww = L"  " + ww + L" ";
    }
    View view()
    {
        View v;
        v.b = &b; v.w = &w; v.d = &d; v.ww = &ww; v.pb = b.c_str(); v.pw = w.c_str(); v.pd = d.c_str(); v.pww = ww.c_str();
        v.lb = b.data(); v.lw = w.data(); v.ld = d.data(); v.nb = unsigned(b.size()); v.nw = unsigned(w.size()); v.nd = unsigned(d.size());
        if (nulls) { v.pb = nullptr; v.pw = nullptr; v.pd = nullptr; v.pww = nullptr; }
        v.lang = noLang ? nullptr : lang.c_str(); v.pred = &pred;
        v.range = static_cast<ansak::RangeType>(range); v.et = static_cast<ansak::EncodingType>(et); v.et2 = static_cast<ansak::EncodingType>(et2); v.src = static_cast<ansak::SourceEncoding>(src);
        v.delim = delim; v.set8 = &set8; v.set16 = &set16; v.set32 = &set32; v.setw = &setw; v.p8 = &p8; v.p16 = &p16; v.p32 = &p32; v.pwd = &pwd;
        v.vb = &vb; v.vw = &vw; v.vd = &vd; v.vww = &vww;
        return v;
    }
};

static const char* const kLangs[] = { "", "en", "tr", "tur", "az", "aze", "azj", "azb", "kk", "kaz", "tt", "tat", "t", "trx", "turk", "AZ", "de", "azer", "k", "lt" };

// a Case carries everything: b, w, d the texts; s the language; n = { flags, range, et, et2, src, delim, predicate conditions... }
inline void load(Args& a, const vm::Case& c)
{
    a.b = c.b; a.w = c.w; a.d = c.d; a.lang = c.s;
    auto n = [&](size_t i, long long def) { return c.n.size() > i ? c.n[i] : def; };
    long long flags = n(0, 0);
    a.noLang = flags & 1; a.nulls = (flags & 2) != 0;
    a.range = n(1, 1); a.et = n(2, 1); a.et2 = n(3, 3); a.src = n(4, 0); a.delim = uint32_t(n(5, ','));
    a.pred = ansak::EncodingCheckPredicate();
    for (size_t i = 6; i < c.n.size(); ++i)
    {
        auto t = static_cast<ansak::EncodingType>(c.n[i] >> 1);
        a.pred = (c.n[i] & 1) ? a.pred.andIfNot(t) : a.pred.andIf(t);
    }
    a.derive();
}
inline long long randEnum(gen::Rng& r, int n, bool wild) { static const long long w[] = { -1, 5, 6, 7, 8, 31, 32, 33, 63, 64, 255, 256, 1000, 65536, 0x7FFFFFFF, -2147483648LL, -2, -1000 }; return wild && r.chance(1, 6) ? w[r.below(sizeof w / sizeof w[0])] : (long long)r.below(unsigned(n)); }

inline vm::Case randCase(gen::Rng& r, bool wild, bool longOnes = true)
{
    vm::Case c; c.op = "api";
    switch (r.below(4))
    {
    case 0:     // the same valid text everywhere
    {
        c.d = gen::randText(r, r.chance(1, 3) ? gen::kBmp : gen::kUnicode, longOnes); c.b = model::enc8(c.d); c.w = model::enc16(c.d);
        if (r.chance(1, 4)) { c.b += gen::shapes8().partial[r.below(gen::shapes8().partial.size())]; c.w.push_back(char16_t(0xD800 + r.below(0x400))); }
        break;
    }
    default: c.b = gen::randText8(r, longOnes); c.w = gen::randText16(r, longOnes); c.d = gen::randText32(r, longOnes); break;
    }
    if (wild && r.chance(1, 12) && !c.b.empty()) c.b[r.below(c.b.size())] = 0;
    if (wild && r.chance(1, 12) && !c.w.empty()) c.w[r.below(c.w.size())] = 0;
    if (wild && r.chance(1, 12) && !c.d.empty()) c.d[r.below(c.d.size())] = 0;
    c.s = kLangs[r.below(sizeof kLangs / sizeof kLangs[0])];
    c.n = { (long long)(r.chance(1, 4) ? 1 : 0) | (wild && r.chance(1, 25) ? 2 : 0), randEnum(r, 6, wild), randEnum(r, 5, wild), randEnum(r, 5, wild), randEnum(r, 3, wild),
            (long long)(r.chance(1, 2) ? U' ' : r.chance(1, 2) && !c.d.empty() ? c.d[r.below(c.d.size())] : char32_t(r.below(256))) };
    for (size_t k = r.below(4); k--;) c.n.push_back(randEnum(r, 5, wild) * 2 + (long long)r.below(2));
    return c;
}
} // namespace api
