// model.hxx -- the independent reference model: what well-formed text is, which code points it
// holds, and the oracle tables of the Unicode Character Database. Uses nothing from /repo except
// the enumeration constants of the public interface.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <algorithm>

namespace model {

#include "ucd_tables.inc"

// ------------------------------------------------------------------ text
enum Tail { kNone, kPartial, kDoomed };     // what the text ends with: nothing special; a sequence
                                            // cut short that could have been completed; a sequence
                                            // cut short that no continuation could make well formed
struct Text
{
    bool            valid = true;           // false: malformed before the end
    std::u32string  cps;                    // the complete code points
    Tail            tail = kNone;
    uint32_t        lo = 0, hi = 0;         // kPartial: the code points a completion can give
    unsigned char   lead = 0;               // first byte of the tail
    uint32_t        pendingTail = 0;        // the high surrogate the tail starts with, if that is complete
};

inline bool isSur(uint32_t c) { return c >= 0xD800 && c <= 0xDFFF; }
inline bool isHi(uint32_t c) { return c >= 0xD800 && c <= 0xDBFF; }
inline bool isLo(uint32_t c) { return c >= 0xDC00 && c <= 0xDFFF; }

inline Text dec8(const char* s, size_t n)
{
    static const uint32_t kMin[7] = { 0, 0, 0x80, 0x800, 0x10000, 0x200000, 0x4000000 };
    Text t;
    size_t i = 0;
    uint32_t pendingHi = 0;         // a high surrogate waiting for its low half
    size_t pendingAt = 0;
    while (i < n)
    {
        unsigned char c = static_cast<unsigned char>(s[i]);
        unsigned len = c < 0x80 ? 1 : c < 0xC0 ? 0 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : c < 0xF8 ? 4 : c < 0xFC ? 5 : c < 0xFE ? 6 : 0;
        if (len == 0 || (pendingHi && len != 3)) { t.valid = false; return t; }
        uint32_t v = len == 1 ? c : c & (0x7Fu >> len);
        unsigned have = 1;
        while (have < len && i + have < n)
        {
            unsigned char k = static_cast<unsigned char>(s[i + have]);
            if ((k & 0xC0) != 0x80) { t.valid = false; return t; }
            v = (v << 6) | (k & 0x3F);
            ++have;
        }
        if (have < len)
        {
            unsigned miss = 6 * (len - have);
            uint32_t lo = v << miss, hi = lo + ((1u << miss) - 1);
            t.tail = kPartial;
            if (pendingHi)
            {
                t.pendingTail = pendingHi;
                t.lead = static_cast<unsigned char>(s[pendingAt]);
                uint32_t l = std::max(lo, 0xDC00u), h = std::min(hi, 0xDFFFu);
                if (l > h) t.tail = kDoomed;
                t.lo = 0x10000 + ((pendingHi & 0x3FF) << 10) + (l & 0x3FF);
                t.hi = 0x10000 + ((pendingHi & 0x3FF) << 10) + (h & 0x3FF);
                return t;
            }
            t.lead = c;
            if (hi < kMin[len]) { t.tail = kDoomed; return t; }
            lo = std::max(lo, kMin[len]);
            if (len == 3 && isLo(lo) && isLo(hi)) { t.tail = kDoomed; return t; }
            if (len == 3 && isHi(lo) && isHi(hi))
            {
                t.lo = 0x10000 + ((lo & 0x3FF) << 10);
                t.hi = 0x10000 + ((hi & 0x3FF) << 10) + 0x3FF;
                return t;
            }
            t.lo = lo; t.hi = hi;   // a bare ED also allows D000..D7FF, so the interval is right
            return t;
        }
        if (pendingHi)
        {
            if (!isLo(v)) { t.valid = false; return t; }
            t.cps.push_back(0x10000 + ((pendingHi & 0x3FF) << 10) + (v & 0x3FF));
            pendingHi = 0;
        }
        else if (v < kMin[len] || isLo(v)) { t.valid = false; return t; }
        else if (isHi(v)) { pendingHi = v; pendingAt = i; }
        else t.cps.push_back(v);
        i += len;
    }
    if (pendingHi)
    {
        t.tail = kPartial; t.lead = static_cast<unsigned char>(s[pendingAt]);
        t.lo = 0x10000 + ((pendingHi & 0x3FF) << 10); t.hi = t.lo + 0x3FF;
    }
    return t;
}
inline Text dec8(const std::string& s) { return dec8(s.data(), s.size()); }

inline Text dec16(const char16_t* s, size_t n)
{
    Text t;
    for (size_t i = 0; i < n; ++i)
    {
        uint32_t c = s[i];
        if (isLo(c)) { t.valid = false; return t; }
        if (isHi(c))
        {
            if (i + 1 == n)
            {
                t.tail = kPartial; t.lo = 0x10000 + ((c & 0x3FF) << 10); t.hi = t.lo + 0x3FF;
                return t;
            }
            uint32_t d = s[++i];
            if (!isLo(d)) { t.valid = false; return t; }
            c = 0x10000 + ((c & 0x3FF) << 10) + (d & 0x3FF);
        }
        t.cps.push_back(c);
    }
    return t;
}
inline Text dec16(const std::u16string& s) { return dec16(s.data(), s.size()); }

inline Text dec2(const std::u16string& s)
{
    Text t;
    for (char16_t c : s) { if (isSur(c)) { t.valid = false; return t; } t.cps.push_back(c); }
    return t;
}
inline Text dec32(const std::u32string& s)
{
    Text t;
    for (char32_t c : s) { if (isSur(c)) { t.valid = false; return t; } t.cps.push_back(c); }
    return t;
}

// ------------------------------------------------------------------ ranges (values of RangeType)
enum Range { rAscii, rUtf8, rUcs2, rUtf16, rUcs4, rUnicode, rCount };
inline uint32_t rangeMax(int r)
{
    static const uint32_t m[] = { 0x7F, 0x7FFFFFFF, 0xFFFF, 0x10FFFF, 0xFFFFFFFF, 0x10FFFF };
    return m[r];
}
inline bool inRange(uint32_t c, int r) { return !isSur(c) && c <= rangeMax(r); }
inline bool allIn(const std::u32string& s, int r)
{
    for (char32_t c : s) if (!inRange(c, r)) return false;
    return true;
}

// three-valued verdicts
enum Verdict { vFalse, vTrue, vOpen };

// what a tail cut short means for a target range
inline Verdict tailVerdict8(const Text& t, int r)
{
    if (t.tail == kNone) return vTrue;
    if (r == rAscii) return vFalse;             // no sequence of several bytes is ASCII
    if (r == rUcs2 && t.lead >= 0xF0) return vFalse;
    if ((r == rUtf16 || r == rUnicode) && t.lead >= 0xF5) return vFalse;
    if (t.tail == kDoomed) return vOpen;
    return t.lo <= rangeMax(r) ? vTrue : vOpen;
}
inline Verdict tailVerdict16(const Text& t, int r)
{
    if (t.tail == kNone) return vTrue;
    return (r == rAscii || r == rUcs2) ? vFalse : vTrue;
}
template <class Pred>
Verdict is8(const Text& t, int r, Pred pred)
{
    if (!t.valid) return vFalse;
    for (char32_t c : t.cps) if (!inRange(c, r) || !pred(c)) return vFalse;
    return tailVerdict8(t, r);
}
template <class Pred>
Verdict is16(const Text& t, int r, Pred pred)
{
    if (!t.valid) return vFalse;
    for (char32_t c : t.cps) if (!inRange(c, r) || !pred(c)) return vFalse;
    return tailVerdict16(t, r);
}
template <class Pred>
Verdict isFixed(const Text& t, int r, Pred pred)
{
    if (!t.valid) return vFalse;
    for (char32_t c : t.cps) if (!inRange(c, r) || !pred(c)) return vFalse;
    return vTrue;
}
inline bool anyChar(char32_t) { return true; }

// ------------------------------------------------------------------ encoders
inline void put8(std::string& r, uint32_t c)
{
    if (c < 0x80) { r.push_back(char(c)); return; }
    int n = c < 0x800 ? 2 : c < 0x10000 ? 3 : c < 0x200000 ? 4 : c < 0x4000000 ? 5 : 6;
    static const unsigned char mark[] = { 0, 0, 0xC0, 0xE0, 0xF0, 0xF8, 0xFC };
    char t[6];
    for (int i = n - 1; i > 0; --i) { t[i] = char(0x80 | (c & 0x3F)); c >>= 6; }
    t[0] = char(mark[n] | c);
    r.append(t, size_t(n));
}
inline std::string enc8(const std::u32string& s) { std::string r; for (char32_t c : s) put8(r, c); return r; }
inline void putCesu(std::string& r, uint32_t c)     // surrogates as three bytes each
{
    c -= 0x10000; put8(r, 0xD800 + (c >> 10)); put8(r, 0xDC00 + (c & 0x3FF));
}
inline void put16(std::u16string& r, uint32_t c)
{
    if (c < 0x10000) { r.push_back(char16_t(c)); return; }
    c -= 0x10000; r.push_back(char16_t(0xD800 + (c >> 10))); r.push_back(char16_t(0xDC00 + (c & 0x3FF)));
}
inline std::u16string enc16(const std::u32string& s) { std::u16string r; for (char32_t c : s) put16(r, c); return r; }

// ------------------------------------------------------------------ Unicode Character Database
struct Ucd
{
    std::vector<uint8_t> since;         // 0: never assigned
    std::vector<uint32_t> low;          // simple lowercase
    std::vector<uint8_t> lowSince;
    Ucd() : since(0x110000, 0), low(0x110000), lowSince(0x110000, 0)
    {
        for (auto& r : kAssigned) for (uint32_t c = r[0]; c <= r[1]; ++c) since[c] = uint8_t(r[2]);
        for (uint32_t c = 0; c < 0x110000; ++c) low[c] = c;
        for (auto& r : kLower) { low[r[0]] = r[1]; lowSince[r[0]] = uint8_t(r[2]); }
    }
};
inline const Ucd& ucd() { static Ucd u; return u; }

enum Class { cAssigned = 1, cPrivate = 2, cControl = 4, cWhite = 8 };
inline bool isWhite(uint32_t c)
{
    return (c >= 9 && c <= 13) || c == 0x20 || c == 0x85 || c == 0xA0 || c == 0x1680 || (c >= 0x2000 && c <= 0x200A) ||
           c == 0x2028 || c == 0x2029 || c == 0x202F || c == 0x205F || c == 0x3000;
}
inline bool isBlank(uint32_t c)     // what the Unicode trim removes
{
    return c == 9 || c == 10 || c == 13 || c == 0x20 || c == 0xA0 || c == 0x1680 || (c >= 0x2000 && c <= 0x200A) ||
           c == 0x202F || c == 0x205F || c == 0x3000;
}
inline bool isOpenBlank(uint32_t c) // white space the Unicode trim need not, but may, remove
{
    return c == 11 || c == 12 || c == 0x85 || c == 0x2028 || c == 0x2029;
}
inline unsigned classes(uint32_t c, int version)
{
    unsigned m = 0;
    if (c < 0x110000 && ucd().since[c] && ucd().since[c] <= version) m |= cAssigned;
    if ((c >= 0xE000 && c <= 0xF8FF) || (c >= 0xF0000 && c <= 0xFFFFD) || (c >= 0x100000 && c <= 0x10FFFD)) m |= cPrivate;
    if (c < 32 || (c >= 127 && c < 160)) m |= cControl;
    if (isWhite(c)) m |= cWhite;
    return m;
}
inline uint32_t lower(uint32_t c, int version, bool turkic = false)
{
    if (c == 0x130) return 0x69;
    if (c == 0x49 && turkic) return 0x131;
    if (c < 0x110000 && ucd().lowSince[c] && ucd().lowSince[c] <= version) return ucd().low[c];
    return c;
}
inline bool turkicLang(const char* l)
{
    if (!l) return false;
    for (const char* t : { "az", "aze", "azj", "azb", "kk", "kaz", "tt", "tat", "tr", "tur" }) if (std::string(l) == t) return true;
    return false;
}

} // namespace model
