// predspec.hxx -- predicates as lists of conditions: built through the library, and as the model reads them
#pragma once
#include "string.hxx"
#include "gen.hxx"
#include "ranges.hxx"

namespace predspec {
// one condition: class 0 (kIsNone) or 1..4, +8 if negated
typedef std::vector<long long> Spec;
inline int cls(long long c) { return int(c & 7) % 5; }
inline bool neg(long long c) { return (c & 8) != 0; }

// how the chain is spelled: 0 free factories, 1 static factories, 2 from the default predicate, 3 in one expression (up to 3)
inline ansak::EncodingCheckPredicate build(const Spec& s, unsigned how)
{
    using namespace ansak;
    auto T = [](long long c) { return static_cast<EncodingType>(cls(c)); };
    EncodingCheckPredicate p;
    size_t i = 0;
    if (s.empty()) return p;
    if (how % 4 == 3 && s.size() >= 2 && s.size() <= 3)
    {
        auto first = neg(s[0]) ? validIfNot(T(s[0])) : validIf(T(s[0]));
        if (s.size() == 2) return neg(s[1]) ? first.andIfNot(T(s[1])) : first.andIf(T(s[1]));
        if (neg(s[1])) return neg(s[2]) ? first.andIfNot(T(s[1])).andIfNot(T(s[2])) : first.andIfNot(T(s[1])).andIf(T(s[2]));
        return neg(s[2]) ? first.andIf(T(s[1])).andIfNot(T(s[2])) : first.andIf(T(s[1])).andIf(T(s[2]));
    }
    if (how % 4 == 0) { p = neg(s[0]) ? validIfNot(T(s[0])) : validIf(T(s[0])); i = 1; }
    else if (how % 4 == 1) { p = neg(s[0]) ? EncodingCheckPredicate::checkIfNot(T(s[0])) : EncodingCheckPredicate::checkIf(T(s[0])); i = 1; }
    for (; i < s.size(); ++i) p = neg(s[i]) ? p.andIfNot(T(s[i])) : p.andIf(T(s[i]));
    return p;
}
// the model: classes that must be and must not be there
struct Need { unsigned yes = 0, no = 0; bool contradictory() const { return (yes & no) != 0; } bool ok(unsigned m) const { return (m & yes) == yes && (m & no) == 0; } };
inline Need need(const Spec& s)
{
    Need n;
    for (long long c : s) if (int k = cls(c)) (neg(c) ? n.no : n.yes) |= 1u << (k - 1);
    return n;
}
// class masks that occur, and the code points that have them
struct Pools
{
    std::vector<uint32_t> by[16];
    std::vector<unsigned> masks;
    explicit Pools(int version)
    {
        for (uint32_t c = 1; c < 0x110000; ++c) if (!model::isSur(c)) by[model::classes(c, version)].push_back(c);
        for (unsigned m = 0; m < 16; ++m) if (!by[m].empty()) masks.push_back(m);
    }
};
inline const Pools& pools() { static Pools p(vm::st().version); return p; }
inline uint32_t pick(gen::Rng& r, const Need& n, bool satisfying, bool bmp)
{
    for (int tries = 0; tries < 40; ++tries)
    {
        unsigned m = pools().masks[r.below(pools().masks.size())];
        if (n.ok(m) != satisfying) continue;
        auto& v = pools().by[m];
        uint32_t c = v[r.below(v.size())];
        if (r.chance(1, 2)) c = v[r.below(std::min<size_t>(v.size(), 300))];
        if (bmp && c > 0xFFFF) continue;
        return c;
    }
    return 'a';
}
inline Spec randSpec(gen::Rng& r, size_t maxLen)
{
    Spec s; size_t k = r.below(maxLen + 1);
    for (size_t i = 0; i < k; ++i) s.push_back((long long)(r.chance(1, 20) ? 0 : 1 + r.below(4)) | (r.chance(1, 2) ? 8 : 0));
    return s;
}
} // namespace predspec
