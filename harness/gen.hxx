// gen.hxx -- workload generators: edge code points, sequence shapes, random structured text,
// padding sweeps, and the dictionary mined from /repo's sources.
#pragma once
#include "vm.hxx"
#include "model.hxx"
#include <fstream>
#include <new>
#include <stdexcept>

namespace gen {

using vm::Rng;

// ------------------------------------------------------------------ dictionary of mined literals
// fresh: literals that the tree this machinery was written for does not have (see oracle/literals.txt)
struct Dict { std::vector<uint32_t> nums, fresh; std::vector<std::string> strs, freshStrs; };
inline Dict& dict()
{
    static Dict* d = [] {
        Dict* r = new Dict;
        std::ifstream f(vm::st().dictFile);
        std::string k, v;
        while (f >> k >> v)
        {
            if (k == "n") r->nums.push_back(uint32_t(strtoull(v.c_str(), nullptr, 10)));
            else if (k == "s") r->strs.push_back(vm::unhex<char>(v));
            else if (k == "N") r->fresh.push_back(uint32_t(strtoull(v.c_str(), nullptr, 10)));
            else if (k == "S") r->freshStrs.push_back(vm::unhex<char>(v));
        }
        vm::ev("dictionary numbers", r->nums.size());
        vm::ev("dictionary strings", r->strs.size());
        vm::ev("dictionary new numbers", r->fresh.size());
        return r;
    }();
    return *d;
}

// ------------------------------------------------------------------ code points
inline const std::vector<uint32_t>& edgeUnicode()       // valid Unicode
{
    static const std::vector<uint32_t> v = { 1, 9, 0xA, 0xD, 0x20, 0x2C, 0x3B, 0x41, 0x49, 0x5A, 0x61, 0x69, 0x7E, 0x7F, 0x80, 0x85, 0x9F, 0xA0, 0xC0, 0xD7, 0xDF,
        0xFF, 0x100, 0x130, 0x131, 0x178, 0x3FF, 0x400, 0x7BF, 0x7C0, 0x7FE, 0x7FF, 0x800, 0x801, 0xFFF, 0x1000, 0x1680, 0x1E9E, 0x1FFF, 0x2000, 0x2028, 0x3000, 0x4E00,
        0xD000, 0xD7FE, 0xD7FF, 0xE000, 0xE001, 0xF8FF, 0xFDD0, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x10001, 0x103FF, 0x10400, 0x10800, 0x1D800, 0x1DC00, 0x1DFFF, 0x1F600, 0x1FFFF, 0x20000,
        0x2FFFF, 0x3FFFF, 0x40000, 0x7FFFF, 0x80000, 0xDFFFF, 0xE0000, 0xF0000, 0xFFFFD, 0xFFFFE, 0xFFFFF, 0x100000, 0x10D800, 0x10FC00, 0x10FFFD, 0x10FFFE, 0x10FFFF };
    return v;
}
inline const std::vector<uint32_t>& edgeBeyond()        // 31 and 32 bit values, no surrogates
{
    static const std::vector<uint32_t> v = { 0x110000, 0x110001, 0x11FFFF, 0x13FFFF, 0x140000, 0x1FFFFE, 0x1FFFFF, 0x200000, 0x200001, 0x2D800, 0x3FFFFFE, 0x3FFFFFF, 0x4000000,
        0x4000001, 0x1000D800, 0x3FFFFFFF, 0x40000000, 0x7FFFFFFE, 0x7FFFFFFF };
    return v;
}
inline const std::vector<uint32_t>& edge32()            // everything a 32-bit unit can be
{
    static const std::vector<uint32_t> v = [] {
        std::vector<uint32_t> r = edgeUnicode();
        r.insert(r.end(), edgeBeyond().begin(), edgeBeyond().end());
        for (uint32_t c : { 0xD800u, 0xD801u, 0xDBFEu, 0xDBFFu, 0xDC00u, 0xDC01u, 0xDFFEu, 0xDFFFu, 0x80000000u, 0x80000001u, 0x80000041u, 0x8000D800u, 0xC0000000u,
                            0xFFFF0041u, 0xFFFFD800u, 0xFFFFFFFEu, 0xFFFFFFFFu, 0x00D80000u, 0xD8000000u, 0x0000D900u }) r.push_back(c);
        return r;
    }();
    return v;
}

enum Kind { kUnicode = 0, kBmp = 1, kAny31 = 2, kAny32 = 3 };   // kAny32 may give surrogates

inline uint32_t randCp(Rng& r, Kind k)
{
    for (;;)
    {
        uint32_t c;
        switch (r.below(12))
        {
        case 0: case 1: case 2: c = uint32_t(0x20 + r.below(0x5F)); break;
        case 3: c = uint32_t(1 + r.below(0xFF)); break;
        case 4: c = uint32_t(0x80 + r.below(0x780)); break;
        case 5: case 6: c = uint32_t(0x800 + r.below(0xF800)); break;
        case 7: c = uint32_t(0x10000 + r.below(0x100000)); break;
        case 8: c = edgeUnicode()[r.below(edgeUnicode().size())]; break;
        case 9: c = model::kLower[r.below(sizeof model::kLower / sizeof model::kLower[0])][r.below(2)]; break;
        case 10:
            c = dict().nums.empty() ? 0x41 : uint32_t(dict().nums[r.below(dict().nums.size())] + r.below(3) - 1);
            break;
        default: c = k >= kAny31 ? edge32()[r.below(edge32().size())] : edgeUnicode()[r.below(edgeUnicode().size())]; break;
        }
        if (!dict().fresh.empty() && r.chance(1, 6)) c = uint32_t(dict().fresh[r.below(dict().fresh.size())] + (r.chance(1, 2) ? 0 : r.below(3) - 1));
        if (model::isSur(c) && k != kAny32 && k != kBmp)            // a pair with this half
            c = c < 0xDC00 ? 0x10000 + ((c - 0xD800) << 10) + (r.chance(1, 2) ? uint32_t(r.below(0x400)) : 0x3FF * uint32_t(r.below(2)))
                           : 0x10000 + (uint32_t(r.below(0x400)) << 10) + (c - 0xDC00);
        else if (c >= 0x80 && c <= 0xFD && r.chance(1, 4))         // a sequence with this byte
        {
            uint32_t b = c, low = uint32_t(r.next());
            if (b < 0xC0) { unsigned sh = 6 * unsigned(r.below(3)); c = (low & 0xFFFF & ~(0x3Fu << sh)) | (b & 0x3F) << sh; if (c < 0x80) c |= 0x800; }
            else if (b < 0xE0) c = (b & 0x1F) << 6 | (low & 0x3F);
            else if (b < 0xF0) c = (b & 0xF) << 12 | (low & 0xFFF);
            else if (b < 0xF8) c = (b & 7) << 18 | (low & 0x3FFFF);
        }
        if (k >= kAny31 && r.chance(1, 12)) c = uint32_t(r.next()) >> r.below(k == kAny31 ? 1 + 11 : 12);
        if (c == 0) continue;
        if (k == kAny32) return c;
        if (model::isSur(c)) continue;
        if (k == kAny31) { if (c > 0x7FFFFFFF) continue; return c; }
        if (k == kUnicode && c > 0x10FFFF) continue;
        if (k == kBmp && c > 0xFFFF) continue;
        return c;
    }
}

inline size_t randLen(Rng& r, bool longOnes = true)
{
    if (!dict().fresh.empty() && r.chance(1, 24))
    {
        uint32_t n = dict().fresh[r.below(dict().fresh.size())];
        if (n < (longOnes ? 5000u : 200u)) return size_t(n) * (r.chance(1, 3) ? 1 + r.below(3) : 1) + r.below(3) - (n ? 1 : 0);
    }
    switch (r.below(longOnes ? 24 : 16))
    {
    case 0: return 0;
    case 1: return 1;
    case 16: case 17: return 12 + r.below(60);
    case 18: case 19: return 60 + r.below(250);
    case 20:
    {
        static const unsigned e[] = { 15, 16, 17, 22, 23, 24, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025 };
        return e[r.below(sizeof e / sizeof e[0])];
    }
    case 21:
        if (!dict().nums.empty()) { uint32_t n = dict().nums[r.below(dict().nums.size())]; if (n < 3000) return n + r.below(3); }
        return 3;
    case 22: return r.chance(1, 4) ? 1000 + r.below(4000) : 5;
    default: return 1 + r.below(14);
    }
}

inline std::u32string randText(Rng& r, Kind k, bool longOnes = true)
{
    size_t n = randLen(r, longOnes);
    std::u32string s;
    s.reserve(n);
    unsigned style = unsigned(r.below(8));
    if (style == 6)                                 // few different ones, many times
    {
        uint32_t pool[5]; size_t np = 2 + r.below(4);
        for (auto& c : pool) c = randCp(r, k);
        for (size_t i = 0; i < n; ++i) s.push_back(pool[r.below(np)]);
        return s;
    }
    if (style == 7)                                 // code points that share their upper, their lower, or their lowest bits
    {
        uint32_t pool[4]; for (auto& c : pool) c = randCp(r, k);
        const unsigned sh[] = { 6, 8, 10, 12, 16 }; unsigned at = sh[r.below(5)], mask = (1u << at) - 1;
        for (size_t i = 0; i < n; ++i)
        {
            uint32_t a = pool[r.below(4)], b = pool[r.below(4)], c = at == 10 && a >= 0x10000 ? ((a - 0x10000) & ~mask) + 0x10000 + (b & mask) : (a & ~mask) | (b & mask);
            if (c == 0 || (k != kAny32 && model::isSur(c)) || (k == kUnicode && c > 0x10FFFF) || (k == kBmp && c > 0xFFFF) || (k == kAny31 && c > 0x7FFFFFFF)) c = a;
            s.push_back(c);
        }
        return s;
    }
    if (style == 5)                                 // words: letters of one script, marks, final forms, line ends
    {
        const size_t nl = sizeof model::kLower / sizeof model::kLower[0];
        static const char32_t mark[] = { 0x300, 0x301, 0x307, 0x308, 0x30A, 0x327, 0x345, 0x200D, 0xFE0F, 0xAD, 0x27, 0x2019 };
        static const char32_t sep[] = { U' ', U' ', U' ', U'\n', U'\t', U',', U'.', U'-', U';', 0xA0, 0x2028, 0x3000, U'0', U'9', U'_' };
        while (s.size() < n)
        {
            size_t at = r.chance(1, 3) ? r.below(26) : r.below(nl), len = 1 + r.below(8); bool up = r.chance(1, 3);
            uint32_t script = model::kLower[at][0] >> 6;
            for (size_t i = 0; i < len; ++i)
            {
                size_t k = at + r.below(40); if (k >= nl || model::kLower[k][0] >> 6 > script + 1) k = at;
                s.push_back(char32_t(model::kLower[k][up || (i == 0 && r.chance(1, 2)) ? 0 : 1]));
                if (r.chance(1, 10)) s.push_back(mark[r.below(sizeof mark / sizeof mark[0])]);
            }
            if (script >= 0x0D && script <= 0x0F && r.chance(1, 2)) s.push_back(r.chance(1, 3) ? 0x3C2 : up ? 0x3A3 : 0x3C3);
            if (r.chance(1, 20)) s += U"\r\n"; else if (r.chance(9, 10)) s.push_back(sep[r.below(sizeof sep / sizeof sep[0])]);
        }
        if (k == kBmp) for (auto& c : s) if (c > 0xFFFF) c = U'w';
        if (s.size() > n && r.chance(3, 4)) s.resize(n);
    }
    else if (style == 0)                                 // one script-like run
    {
        uint32_t base = randCp(r, k);
        for (size_t i = 0; i < n; ++i) { uint32_t c = base + uint32_t(r.below(32)); if (c == 0 || (k != kAny32 && model::isSur(c)) || (k == kUnicode && c > 0x10FFFF) || (k == kBmp && c > 0xFFFF) || (k == kAny31 && c > 0x7FFFFFFF)) c = base; s.push_back(c); }
    }
    else if (style == 1)                            // mostly ASCII with a few others
    {
        for (size_t i = 0; i < n; ++i) s.push_back(r.chance(1, 10) ? randCp(r, k) : uint32_t(0x20 + r.below(0x5F)));
    }
    else for (size_t i = 0; i < n; ++i) s.push_back(randCp(r, k));
    return s;
}

// a long text of runs of one kind and of mixed stretches, so that code points of every size straddle every block limit
inline std::u32string longMix(Rng& r, Kind k)
{
    size_t n = (size_t(3000) << r.below(6)) + r.below(3000);
    std::u32string s; s.reserve(n + 64);
    while (s.size() < n)
    {
        size_t run = r.chance(1, 3) ? 1 + r.below(3) : 1 + r.below(r.chance(1, 4) ? 3000 : 60);
        uint32_t c = randCp(r, k); bool same = r.chance(1, 2);
        for (size_t i = 0; i < run; ++i) s.push_back(same ? c : randCp(r, k));
    }
    return s;
}

// ------------------------------------------------------------------ UTF-8 sequence shapes
struct Shapes8 { std::vector<std::string> valid, partial, bad, all; };
inline const Shapes8& shapes8()
{
    static const Shapes8 v = [] {
        Shapes8 r;
        for (uint32_t c : edgeUnicode()) { std::string s; model::put8(s, c); r.valid.push_back(s); }
        for (uint32_t c : edgeBeyond()) { std::string s; model::put8(s, c); r.valid.push_back(s); }
        for (uint32_t c : { 0x10000u, 0x103FFu, 0x10400u, 0x1F600u, 0x50123u, 0x10FC00u, 0x10FFFFu }) { std::string s; model::putCesu(s, c); r.valid.push_back(s); }
        std::set<std::string> p;
        for (auto& s : r.valid) for (size_t i = 1; i < s.size(); ++i) p.insert(s.substr(0, i));
        r.partial.assign(p.begin(), p.end());
        for (const char* b : { "\x80", "\xbf", "\xa0", "\xc0\x80", "\xc0\xaf", "\xc1\xbf", "\xe0\x80\x80", "\xe0\x9f\xbf", "\xed\xb0\x80", "\xed\xbf\xbf",
            "\xed\xa0\x80\x41", "\xed\xa0\x80\xed\xa0\x80", "\xed\xaf\xbf\xed\xaf\xbf", "\xed\xa0\x80\xe1\xb0\x80", "\xed\xaf\xbf\xee\x80\x80", "\xed\xa0\x80\xec\xbf\xbf", "\xed\xa0\x80\xc2\x80",
            "\xed\xa0\x80\xf0\x90\x80\x80", "\xed\xa0\x80\xed\x9f\xbf", "\xed\xa0\x80\xed\xb0", "\xed\xa0\x80\xed", "\xed\xa0\x80", "\xed\xa0",
            "\xf0\x80\x80\x80", "\xf0\x8f\xbf\xbf", "\xf8\x80\x80\x80\x80", "\xf8\x87\xbf\xbf\xbf", "\xfc\x80\x80\x80\x80\x80", "\xfc\x83\xbf\xbf\xbf\xbf",
            "\xfe", "\xff", "\xfe\x80\x80\x80\x80\x80\x80", "\xff\xbf", "\xc2\x41", "\xc2\xc2\x80", "\xdf\x7f", "\xdf\xc0", "\xe1\x80\x41", "\xe1\x41\x80", "\xe1\x80\xc2\x80", "\xef\xbf\x7f", "\xef\xbf\xc0",
            "\xf1\x80\x80\x41", "\xf1\x80\x41\x80", "\xf1\x41", "\xf3\xbf\xbf\xc0", "\xf8\x88\x80\x80\x41", "\xf8\x88\x80\xc0", "\xfb\xbf\xbf\xbf\x7f", "\xfc\x84\x80\x80\x80\x41", "\xfc\x84\x80\x80\xc0", "\xfd\xbf\xbf\xbf\xbf\x7f",
            "\xc2\x80\x80", "\xe1\x80\x80\x80", "\xf1\x80\x80\x80\x80", "\xf8\x88\x80\x80\x80\x80", "\xfc\x84\x80\x80\x80\x80\x80" }) r.bad.push_back(b);
        for (auto* l : { &r.valid, &r.partial, &r.bad }) r.all.insert(r.all.end(), l->begin(), l->end());
        return r;
    }();
    return v;
}
inline const std::vector<std::u16string>& shapes16()
{
    static const std::vector<std::u16string> v = [] {
        std::vector<std::u16string> r;
        for (uint32_t c : edgeUnicode()) { std::u16string s; model::put16(s, c); r.push_back(s); }
        auto add = [&](std::initializer_list<unsigned> l) { std::u16string s; for (unsigned c : l) s.push_back(char16_t(c)); r.push_back(s); };
        add({ 0xD800 }); add({ 0xDBFF }); add({ 0xDC00 }); add({ 0xDFFF }); add({ 0xD800, 0x41 }); add({ 0xD800, 0xD800 }); add({ 0xDC00, 0xD800 }); add({ 0xDC00, 0xDC00 });
        add({ 0xDBFF, 0xDBFF, 0xDFFF }); add({ 0xD800, 0xE000 }); add({ 0xD800, 0xFFFF }); add({ 0xDBFF, 0xE000 }); add({ 0xD800, 0xDBFF }); add({ 0xD800, 0xDC00, 0xDC00 }); add({ 0xD800, 0xD7FF });
        add({ 0xD834, 0xDD1E }); add({ 0xDBFF, 0xDFFE }); add({ 0xDA00, 0xDE00 }); add({ 0xD9FF }); add({ 0xDDFF });
        return r;
    }();
    return v;
}

// ------------------------------------------------------------------ random code unit text
inline const std::vector<unsigned char>& alpha8()
{
    static const std::vector<unsigned char> v = { 0x01, 0x41, 0x7F, 0x80, 0x81, 0x8F, 0x90, 0x9F, 0xA0, 0xAF, 0xB0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF,
        0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF7, 0xF8, 0xF9, 0xFB, 0xFC, 0xFD, 0xFE, 0xFF };
    return v;
}
inline std::string noNul(std::string s) { for (auto& c : s) if (!c) c = 1; return s; }

inline std::string randText8(Rng& r, bool longOnes = true)
{
    switch (r.below(10))
    {
    case 0:
    {
        std::string s; size_t n = randLen(r, longOnes);
        for (size_t i = 0; i < n; ++i) s.push_back(char(1 + r.below(255)));
        return s;
    }
    case 1:
    {
        std::string s; size_t n = randLen(r, false);
        for (size_t i = 0; i < n; ++i) s.push_back(char(alpha8()[r.below(alpha8().size())]));
        return s;
    }
    case 2:
    {
        std::string s; size_t n = r.below(8);
        for (size_t i = 0; i < n; ++i) s += shapes8().all[r.below(shapes8().all.size())];
        return s;
    }
    case 3:
        if (!dict().strs.empty())
        {
            std::string s = noNul(dict().strs[r.below(dict().strs.size())]);
            if (r.chance(1, 2)) s = model::enc8(randText(r, kUnicode, false)) + s;
            if (r.chance(1, 2)) s += model::enc8(randText(r, kUnicode, false));
            return s;
        }
        // fall through
    default:
    {
        Kind k = r.chance(1, 4) ? kAny31 : r.chance(1, 4) ? kBmp : kUnicode;
        std::u32string t = randText(r, k, longOnes);
        std::string s;
        bool cesu = r.chance(1, 5);
        for (char32_t c : t) if (cesu && c >= 0x10000 && c <= 0x10FFFF && r.chance(1, 2)) model::putCesu(s, c); else model::put8(s, c);
        unsigned m = unsigned(r.below(8));
        if (m == 0) s += shapes8().partial[r.below(shapes8().partial.size())];
        else if (m == 1) s.insert(r.below(s.size() + 1), shapes8().bad[r.below(shapes8().bad.size())]);
        else if (m == 2 && !s.empty()) s[r.below(s.size())] = char(1 + r.below(255));
        else if (m == 3 && !s.empty()) s.erase(r.below(s.size()), 1);
        else if (m == 4) s += shapes8().all[r.below(shapes8().all.size())];
        else if (m == 5 && !s.empty()) s.resize(r.below(s.size()));
        return s;
    }
    }
}
inline std::u16string randText16(Rng& r, bool longOnes = true)
{
    if (r.below(10) == 0)
    {
        std::u16string s; size_t n = randLen(r, longOnes);
        for (size_t i = 0; i < n; ++i) s.push_back(char16_t(r.chance(1, 3) ? 0xD800 + r.below(0x800) : 1 + r.below(0xFFFF)));
        return s;
    }
    if (r.below(10) == 0)
    {
        std::u16string s; size_t n = r.below(8);
        for (size_t i = 0; i < n; ++i) s += shapes16()[r.below(shapes16().size())];
        return s;
    }
    std::u16string s = model::enc16(randText(r, r.chance(1, 4) ? kBmp : kUnicode, longOnes));
    unsigned m = unsigned(r.below(8));
    if (m == 0) s.push_back(char16_t(0xD800 + r.below(0x400)));
    else if (m == 1) s.insert(r.below(s.size() + 1), shapes16()[r.below(shapes16().size())]);
    else if (m == 2 && !s.empty()) s[r.below(s.size())] = char16_t(0xD800 + r.below(0x800));
    else if (m == 3 && !s.empty()) s.erase(r.below(s.size()), 1);
    else if (m == 4 && !s.empty()) s.resize(r.below(s.size()));
    return s;
}
inline std::u32string randText32(Rng& r, bool longOnes = true)
{
    std::u32string s = randText(r, r.chance(1, 3) ? kAny32 : r.chance(1, 3) ? kAny31 : r.chance(1, 4) ? kBmp : kUnicode, longOnes);
    if (!s.empty() && r.chance(1, 5)) s[r.below(s.size())] = edge32()[r.below(edge32().size())];
    return s;
}

// ------------------------------------------------------------------ padding sweeps
// lengths at which block-wise code changes path: all small ones, and neighbourhoods of the powers of two
inline std::vector<size_t> padLens(bool thorough, size_t maxPow)
{
    std::vector<size_t> v;
    for (size_t i = 0; i <= (thorough ? 140u : 72u); ++i) v.push_back(i);
    for (size_t p = 7; p <= maxPow; ++p)
    {
        size_t b = size_t(1) << p, k = thorough ? 9 : 5;
        for (size_t i = b - k; i <= b + 2; ++i) v.push_back(i);
    }
    for (uint32_t n : dict().nums) if (n > 72 && n < (thorough ? 20000u : 5000u)) { v.push_back(n - 1); v.push_back(n); v.push_back(n + 1); }
    for (uint32_t n : dict().fresh) if (n > 1 && n < 5000) for (size_t k = 1; k <= 3; ++k) for (size_t i = k * n - 2; i <= k * n + 2; ++i) v.push_back(i);
    for (size_t n : { 100u, 1000u, 10000u }) if (n < (size_t(2) << maxPow)) { v.push_back(n - 1); v.push_back(n); v.push_back(n + 1); }
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
    return v;
}

// ------------------------------------------------------------------ combinations
// code points that mean something next to each other: ASCII, controls, combining marks, joiners, selectors, jamo,
// flags, tags, the edges, and whatever a change names
inline const std::vector<uint32_t>& pairSet(Kind k)
{
    static std::vector<uint32_t> sets[4];
    auto& v = sets[k];
    if (!v.empty()) return v;
    for (uint32_t c = 1; c < 0x80; ++c) v.push_back(c);
    for (uint32_t c : { 0x300u, 0x301u, 0x307u, 0x308u, 0x30Au, 0x327u, 0x345u, 0x391u, 0x3A3u, 0x3C2u, 0x3C3u, 0x410u, 0x430u, 0x5D0u, 0x627u, 0xE33u, 0x1100u, 0x1161u, 0x11A8u, 0xAC00u, 0x1E9Eu, 0x1FBEu,
                        0x200Bu, 0x200Cu, 0x200Du, 0x200Eu, 0x2029u, 0x202Fu, 0x2060u, 0x212Au, 0xFB01u, 0xFE0Fu, 0xFFFCu, 0x1F1E6u, 0x1F1E7u, 0x1F3FBu, 0xE0020u, 0xE0100u }) v.push_back(c);
    for (uint32_t c : k >= kAny31 ? edge32() : edgeUnicode()) v.push_back(c);
    for (size_t i = 0; i < dict().fresh.size() && i < 24; ++i) for (uint32_t d = 0; d < 3; ++d) v.push_back(dict().fresh[i] + d - 1);
    std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
    v.erase(std::remove_if(v.begin(), v.end(), [k](uint32_t c) {
        return c == 0 || (k != kAny32 && model::isSur(c)) || (k == kUnicode && c > 0x10FFFF) || (k == kBmp && c > 0xFFFF) || (k == kAny31 && c > 0x7FFFFFFF); }), v.end());
    return v;
}
// all pairs of them, and all triples of a smaller set (sharded)
template <class F> void combos(Kind k, F f)
{
    auto& v = pairSet(k);
    for (uint32_t a : v) for (uint32_t b : v) if (vm::myTurn()) { f(std::u32string{ char32_t(a), char32_t(b) }); VM_COUNT("pair of code points"); }
    std::vector<uint32_t> w;
    for (size_t i = 0; i < dict().fresh.size() && w.size() < 12; ++i) w.push_back(dict().fresh[i]);
    for (uint32_t c : { 0x61u, 0x41u, 0x49u, 0x20u, 0x0Au, 0xE9u, 0x307u, 0x3A3u, 0x200Du, 0x20ACu, 0xFEFFu, 0xFFFFu, 0x1F600u, 0x10FFFFu }) w.push_back(c);
    w.erase(std::remove_if(w.begin(), w.end(), [&](uint32_t c) { return !std::binary_search(v.begin(), v.end(), c); }), w.end());
    for (uint32_t a : w) for (uint32_t b : w) for (uint32_t c : w) if (vm::myTurn()) { f(std::u32string{ char32_t(a), char32_t(b), char32_t(c) }); VM_COUNT("triple of code points"); }
}
// lengths a change names that padLens leaves out
inline std::vector<size_t> freshLong(size_t limit)
{
    std::vector<size_t> v;
    for (uint32_t n : dict().fresh) if (n >= 5000 && n <= limit && v.size() < 30) for (size_t i = n - 2; i <= size_t(n) + 2; ++i) v.push_back(i);
    return v;
}

// ------------------------------------------------------------------ the standard text workloads
// (sharded; f gets each text): shapes at every offset near block sizes with several paddings and
// followers, random structured text, dictionary strings, a few very long texts
template <class F> void texts8(Rng& rng, size_t randoms, F f, size_t maxPow = 0)
{
    auto& s = vm::st();
    auto pads = padLens(s.thorough, maxPow ? maxPow : s.thorough ? 16 : 12);
    const uint32_t padCp[] = { 'a', 0xE9, 0x20AC, 0x1F600 };
    for (size_t n : pads)
        for (size_t k = 0; k < shapes8().all.size(); ++k)
        {
            if (!vm::myTurn()) continue;
            const auto& sh = shapes8().all[k];
            unsigned which = n > (s.thorough ? 300u : 40u) ? unsigned(rng.below(4)) : 4;
            for (unsigned q = 0; q < 4; ++q)
            {
                if (which < 4 && q != which) continue;
                std::string pad; for (size_t i = 0; i < n; ++i) model::put8(pad, padCp[q]);
                f(pad + sh);
                f(pad + sh + std::string(1 + rng.below(20), 'z'));
                if (rng.chance(1, 8)) f(pad + sh + shapes8().all[rng.below(shapes8().all.size())]);
            }
            VM_COUNT("utf8 shape at offset");
        }
    for (size_t i = 0; i < randoms; ++i) { f(randText8(rng)); VM_COUNT("utf8 random text"); }
    for (auto& d : dict().strs)
    {
        if (!vm::myTurn()) continue;
        std::string t = noNul(d);
        f(t); f(t + "\xc3\xa9"); f("\xc3\xa9" + t); f("a" + t); f(t + "z"); f(t + t);
        VM_COUNT("utf8 dictionary text");
    }
    for (unsigned i = 0; i < (s.thorough ? 30u : 2u); ++i)
    {
        size_t len = (size_t(1) << (16 + rng.below(5))) + rng.below(5) - 2;
        std::string pad;
        if (rng.chance(1, 2)) pad.assign(len, 'x'); else for (size_t j = 0; j < len / 3; ++j) model::put8(pad, rng.chance(1, 2) ? 0x20AC : 0x1F600);
        f(pad + shapes8().all[rng.below(shapes8().all.size())]);
        VM_COUNT("utf8 very long text");
    }
    for (unsigned i = 0; i < (s.thorough ? 30u : 2u); ++i)
    {
        std::string t = model::enc8(longMix(rng, rng.chance(1, 4) ? kAny31 : rng.chance(1, 4) ? kBmp : kUnicode)); f(t);
        t.insert(rng.below(t.size()), shapes8().all[rng.below(shapes8().all.size())]); f(t);
        VM_COUNT("utf8 long mixed text");
    }
    combos(kAny31, [&](const std::u32string& t) { f(model::enc8(t)); });
    for (size_t n : freshLong(2200000))
    {
        if (!vm::myTurn()) continue;
        std::u32string t(n, rng.chance(1, 2) ? U'x' : char32_t(padCp[rng.below(4)]));
        auto u = model::enc8(t); f(u);
        u.insert(rng.below(u.size()), shapes8().all[rng.below(shapes8().all.size())]); f(u);
        VM_COUNT("text of a length named by a change");
    }
    for (auto& d : dict().freshStrs) for (int k = 0; k < 40; ++k)
    {
        model::Text m = model::dec8(noNul(d));
        std::u32string t = randText(rng, kUnicode) + m.cps + randText(rng, kUnicode);
        for (auto& c : t) if (c > 0x10FFFF) c = U'?';
        f(model::enc8(t)); VM_COUNT("text with a string named by a change");
    }
}
template <class F> void texts16(Rng& rng, size_t randoms, F f, size_t maxPow = 0)
{
    auto& s = vm::st();
    auto pads = padLens(s.thorough, maxPow ? maxPow : s.thorough ? 16 : 12);
    const uint32_t padCp[] = { 'a', 0xE9, 0x20AC, 0x1F600 };
    for (size_t n : pads)
        for (auto& sh : shapes16())
        {
            if (!vm::myTurn()) continue;
            unsigned which = n > (s.thorough ? 300u : 40u) ? unsigned(rng.below(4)) : 4;
            for (unsigned q = 0; q < 4; ++q)
            {
                if (which < 4 && q != which) continue;
                std::u16string pad; for (size_t i = 0; i < n; ++i) model::put16(pad, padCp[q]);
                f(pad + sh);
                f(pad + sh + std::u16string(1 + rng.below(20), u'z'));
            }
            VM_COUNT("utf16 shape at offset");
        }
    for (size_t i = 0; i < randoms; ++i) { f(randText16(rng)); VM_COUNT("utf16 random text"); }
    for (auto& d : dict().strs)
    {
        if (!vm::myTurn()) continue;
        model::Text t = model::dec8(noNul(d));
        if (!t.valid || !model::allIn(t.cps, model::rUnicode)) continue;
        std::u16string u = model::enc16(t.cps);
        f(u); f(u + u"\u00e9"); f(u"\u00e9" + u);
        VM_COUNT("utf16 dictionary text");
    }
    for (unsigned i = 0; i < (s.thorough ? 30u : 2u); ++i)
    {
        size_t len = (size_t(1) << (16 + rng.below(5))) + rng.below(5) - 2;
        f(std::u16string(len, rng.chance(1, 2) ? u'x' : u'\u20ac') + shapes16()[rng.below(shapes16().size())]);
        VM_COUNT("utf16 very long text");
    }
    for (unsigned i = 0; i < (s.thorough ? 30u : 2u); ++i)
    {
        std::u16string t = model::enc16(longMix(rng, rng.chance(1, 3) ? kBmp : kUnicode)); f(t);
        t.insert(rng.below(t.size()), shapes16()[rng.below(shapes16().size())]); f(t);
        VM_COUNT("utf16 long mixed text");
    }
    combos(kUnicode, [&](const std::u32string& t) { f(model::enc16(t)); });
    for (size_t n : freshLong(2200000))
    {
        if (!vm::myTurn()) continue;
        std::u32string t(n, rng.chance(1, 2) ? U'x' : char32_t(padCp[rng.below(4)]));
        auto u = model::enc16(t); f(u);
        u.insert(rng.below(u.size()), shapes16()[rng.below(shapes16().size())]); f(u);
        VM_COUNT("text of a length named by a change");
    }
    for (auto& d : dict().freshStrs) for (int k = 0; k < 40; ++k)
    {
        model::Text m = model::dec8(noNul(d));
        std::u32string t = randText(rng, kUnicode) + m.cps + randText(rng, kUnicode);
        for (auto& c : t) if (c > 0x10FFFF) c = U'?';
        f(model::enc16(t)); VM_COUNT("text with a string named by a change");
    }
}
template <class F> void texts32(Rng& rng, size_t randoms, F f, size_t maxPow = 0)
{
    auto& s = vm::st();
    auto pads = padLens(s.thorough, maxPow ? maxPow : s.thorough ? 16 : 12);
    const char32_t padCp[] = { U'a', 0xE9, 0x20AC, 0x1F600 };
    for (size_t n : pads)
        for (uint32_t v : edge32())
        {
            if (!vm::myTurn()) continue;
            std::u32string pad(n, padCp[rng.below(4)]);
            f(pad + char32_t(v));
            f(pad + char32_t(v) + std::u32string(1 + rng.below(20), U'z'));
            VM_COUNT("ucs4 value at offset");
        }
    for (size_t i = 0; i < randoms; ++i) { f(randText32(rng)); VM_COUNT("ucs4 random text"); }
    for (auto& d : dict().strs)
    {
        if (!vm::myTurn()) continue;
        model::Text t = model::dec8(noNul(d));
        if (!t.valid) continue;
        f(t.cps); f(t.cps + U'\u00e9'); f(U'\u00e9' + t.cps);
        VM_COUNT("ucs4 dictionary text");
    }
    for (unsigned i = 0; i < (s.thorough ? 30u : 2u); ++i)
    {
        size_t len = (size_t(1) << (16 + rng.below(5))) + rng.below(5) - 2;
        f(std::u32string(len, padCp[rng.below(4)]) + char32_t(edge32()[rng.below(edge32().size())]));
        VM_COUNT("ucs4 very long text");
    }
    for (unsigned i = 0; i < (s.thorough ? 30u : 2u); ++i)
    {
        std::u32string t = longMix(rng, rng.chance(1, 4) ? kAny31 : rng.chance(1, 4) ? kBmp : kUnicode); f(t);
        t[rng.below(t.size())] = edge32()[rng.below(edge32().size())]; f(t);
        VM_COUNT("ucs4 long mixed text");
    }
    combos(kAny32, f);
    for (size_t n : freshLong(2200000))
    {
        if (!vm::myTurn()) continue;
        std::u32string t(n, padCp[rng.below(4)]); f(t);
        t[rng.below(n)] = edge32()[rng.below(edge32().size())]; f(t);
        VM_COUNT("text of a length named by a change");
    }
}

// bytes of a fuzzer input as text in the three widths, never with a NUL unit
inline std::string fz8(const uint8_t* p, size_t n) { return noNul(std::string(reinterpret_cast<const char*>(p), n)); }
inline std::u16string fz16(const uint8_t* p, size_t n)
{
    std::u16string w;
    for (size_t i = 0; i + 1 < n; i += 2) { char16_t u = char16_t(p[i] | p[i + 1] << 8); w.push_back(u ? u : 1); }
    return w;
}
inline std::u32string fz32(const uint8_t* p, size_t n)
{
    std::u32string d;
    for (size_t i = 0; i + 3 < n; i += 4) { uint32_t u; memcpy(&u, p + i, 4); d.push_back(u ? u : 1); }
    return d;
}

// ------------------------------------------------------------------ memory with guard pages
// Text is placed so that its last unit (terminator included, if wanted) is the last accessible one.
class Guard
{
    char* m_base; size_t m_size, m_page;
public:
    explicit Guard(size_t size = size_t(9) << 20)
    {
        m_page = size_t(sysconf(_SC_PAGESIZE));
        m_size = (size + m_page - 1) / m_page * m_page;
        m_base = static_cast<char*>(mmap(nullptr, m_size + 2 * m_page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        if (m_base == MAP_FAILED) { perror("mmap"); exit(5); }
        mprotect(m_base, m_page, PROT_NONE);
        mprotect(m_base + m_page + m_size, m_page, PROT_NONE);
        m_base += m_page;
    }
    // at the end, followed by a terminator and then nothing accessible
    template <class C> const C* z(const std::basic_string<C>& s)
    {
        size_t n = (s.size() + 1) * sizeof(C);
        if (n > m_size) { fprintf(stderr, "text too long for the arena\n"); exit(5); }
        char* p = m_base + m_size - n;
        memcpy(p, s.data(), n - sizeof(C)); memset(p + n - sizeof(C), 0, sizeof(C));
        return reinterpret_cast<const C*>(p);
    }
    // at the end, nothing accessible after the last unit
    template <class C> const C* bare(const C* s, size_t count)
    {
        size_t n = count * sizeof(C);
        if (n > m_size) { fprintf(stderr, "text too long for the arena\n"); exit(5); }
        char* p = m_base + m_size - n;
        memcpy(p, s, n);
        return reinterpret_cast<const C*>(p);
    }
    // at the start, nothing accessible before it, followed by the given units
    template <class C> const C* front(const C* s, size_t count)
    {
        memcpy(m_base, s, count * sizeof(C));
        return reinterpret_cast<const C*>(m_base);
    }
};
inline Guard& guard() { static Guard g; return g; }

// A text of billions of units in little memory: one tile of whole repetitions of a pattern, mapped again and again;
// its last units are private, can be changed, and are followed by a terminator (or by nothing accessible).
template <class C> class Huge
{
    char* m_base = nullptr; size_t m_span = 0, m_tile = 0; C* m_text = nullptr; size_t m_units;
public:
    Huge(const std::basic_string<C>& pattern, size_t units, bool terminated) : m_units(units)
    {
        size_t page = size_t(sysconf(_SC_PAGESIZE)), unit = pattern.size() * sizeof(C) * page;      // whole patterns and whole pages
        m_tile = ((size_t(32) << 20) / unit + 1) * unit;
        int fd = memfd_create("tile", 0);
        if (fd < 0 || ftruncate(fd, off_t(m_tile))) { perror("memfd"); exit(5); }
        // the text ends where the accessible memory ends, so it starts inside the first tile
        size_t bytes = (units + (terminated ? 1 : 0)) * sizeof(C), tiles = bytes / m_tile + 2, n = pattern.size();
        size_t phase = (tiles * m_tile - bytes) / sizeof(C) % n;
        C* t = static_cast<C*>(mmap(nullptr, m_tile, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
        if (t == MAP_FAILED) { perror("mmap"); exit(5); }
        for (size_t i = 0; i < m_tile / sizeof(C); ++i) t[i] = pattern[(i + n - phase) % n];
        munmap(t, m_tile);
        m_span = tiles * m_tile + page;
        m_base = static_cast<char*>(mmap(nullptr, m_span, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        if (m_base == MAP_FAILED) { perror("mmap"); exit(5); }
        for (size_t i = 0; i < tiles; ++i)
            if (mmap(m_base + i * m_tile, m_tile, i + 1 < tiles ? PROT_READ : PROT_READ | PROT_WRITE, MAP_FIXED | (i + 1 < tiles ? MAP_SHARED : MAP_PRIVATE), fd, 0) == MAP_FAILED) { perror("mmap"); exit(5); }
        close(fd);
        m_text = reinterpret_cast<C*>(m_base + tiles * m_tile - bytes);
        if (terminated) m_text[units] = 0;
    }
    Huge(const Huge&) = delete;
    ~Huge() { munmap(m_base, m_span); }
    // f() with time for it; code that needs memory for such a text and does not get it is not judged here
    template <class F> static void judge(F f)
    {
        auto& s = vm::st(); int was = s.patience; s.patience = 48; ++s.heart;
        try { f(); } catch (const std::bad_alloc&) { VM_COUNT("no memory for billions of units"); } catch (const std::length_error&) { VM_COUNT("no memory for billions of units"); }
        ++s.heart; s.patience = was;
    }
    const C* text() const { return m_text; }
    void endWith(const std::basic_string<C>& e) { std::copy(e.begin(), e.end(), m_text + m_units - e.size()); }
};

} // namespace gen
