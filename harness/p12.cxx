// P12: splitting and joining are exact inverses
#include "string.hxx"
#include "string_splitjoin.hxx"
#include "gen.hxx"
using namespace ansak; using vm::Case; using gen::Rng;
const char* const kProperty = "P12";

template <class C> using Pieces = std::vector<std::basic_string<C>>;
template <class C> std::basic_string<C> cast(const std::u32string& d) { std::basic_string<C> r; r.reserve(d.size()); for (char32_t v : d) r.push_back(C(v)); return r; }
template <class C> Pieces<C> mSplit(const std::basic_string<C>& s, C delim)
{
    Pieces<C> r;
    if (s.empty()) return r;
    r.emplace_back();
    for (C v : s) if (v == delim) r.emplace_back(); else r.back().push_back(v);
    return r;
}
template <class C> std::basic_string<C> mJoin(const Pieces<C>& p, C delim)
{
    std::basic_string<C> r;
    for (size_t i = 0; i < p.size(); ++i) { if (i) r.push_back(delim); for (C v : p[i]) r.push_back(v); }
    return r;
}
template <class C> std::string show(const Pieces<C>& p)
{
    std::string r = std::to_string(p.size()) + " pieces:";
    for (size_t i = 0; i < p.size() && i < 20; ++i) r += " [" + vm::hex(p[i].substr(0, 40)) + "]";
    return r;
}
template <class C> void splitCase(const Case& c)
{
    std::basic_string<C> s = cast<C>(c.d), before = s;
    C delim = C(c.n[0]);
    Pieces<C> got = split(s, delim), want = mSplit(s, delim);
    if (s != before) vm::fail(c, "split changed its source");
    if (got != want) { vm::fail(c, "split gave " + show(got) + ", not " + show(want)); return; }
    std::basic_string<C> back = join(got, delim);
    if (back != s) vm::fail(c, "joining what was split gave [" + vm::hex(back) + "]");
    if (want.size() > 1) VM_COUNT("split into several"); else if (want.empty()) VM_COUNT("split of nothing"); else VM_COUNT("split into one");
    ;
}
template <class C> void joinCase(const Case& c)
{
    C delim = C(c.n[0]);
    std::basic_string<C> all = cast<C>(c.d);
    Pieces<C> p; size_t at = 0; bool has = false, some = false;
    for (size_t i = 1; i < c.n.size(); ++i)
    {
        size_t k = std::min<size_t>(size_t(c.n[i]), all.size() - at);
        p.push_back(all.substr(at, k)); at += k;
        has |= p.back().find(delim) != std::basic_string<C>::npos; some |= k > 0;
    }
    Pieces<C> before = p;
    std::basic_string<C> got = join(p, delim), want = mJoin(p, delim);
    if (p != before) vm::fail(c, "join changed its source");
    if (got != want) { vm::fail(c, "join of " + show(p) + " gave [" + vm::hex(got) + "], not [" + vm::hex(want) + "]"); return; }
    VM_COUNT("join");
    if (!has && (p.size() > 1 || some))
    {
        Pieces<C> back = split(got, delim);
        VM_COUNT("join, then split");
        if (back != p) vm::fail(c, "splitting what was joined gave " + show(back) + ", not " + show(p));
    }
}
void checkCase(const Case& c)
{
    if (c.n.empty() || c.op.size() < 3) return;
    bool sp = c.op[0] == 's';
    switch (c.op[2])
    {
    case 'c': sp ? splitCase<char>(c) : joinCase<char>(c); break;
    case 'w': sp ? splitCase<wchar_t>(c) : joinCase<wchar_t>(c); break;
    case 'u': sp ? splitCase<char16_t>(c) : joinCase<char16_t>(c); break;
    case 'U': sp ? splitCase<char32_t>(c) : joinCase<char32_t>(c); break;
    }
}
static const char* const kT[] = { "c", "w", "u", "U" };

void workload()
{
    auto& s = vm::st();
    Rng rng(s.seed * 1000 + s.shard);
    Case c;
    auto sp = [&](int t, const std::u32string& d, uint32_t delim) { c = Case(); c.op = std::string("s:") + kT[t]; c.d = d; c.n.assign(1, delim); vm::runHere(c); };
    auto jn = [&](int t, const std::vector<std::u32string>& p, uint32_t delim) { c = Case(); c.op = std::string("j:") + kT[t]; c.n.assign(1, delim); for (auto& x : p) { c.d += x; c.n.push_back((long long)x.size()); } vm::runHere(c); };
    // every text up to 7 (9) characters over delimiter, two others; several delimiters, all types
    const uint32_t delims[] = { ',', 0, ' ', 0x7F, 0x80, 0xFF, '\n', 'a' };
    size_t maxLen = s.thorough ? 10 : 7;
    for (size_t len = 0; len <= maxLen; ++len)
    {
        size_t cnt = 1; for (size_t i = 0; i < len; ++i) cnt *= 3;
        for (size_t k = 0; k < cnt; ++k)
        {
            if (!vm::myTurn()) continue;
            for (int t = 0; t < 4; ++t) for (uint32_t dl : delims)
            {
                const char32_t al[3] = { dl, U'x', dl == 0 ? U'y' : U'\0' };
                std::u32string d; for (size_t i = 0, x = k; i < len; ++i, x /= 3) d.push_back(al[x % 3]);
                sp(t, d, dl);
            }
            VM_COUNT("all short texts");
        }
    }
    // every piece list of up to 5 pieces of length 0..2
    for (size_t cnt = 0; cnt <= 5; ++cnt)
    {
        size_t tot = 1; for (size_t i = 0; i < cnt; ++i) tot *= 3;
        for (size_t k = 0; k < tot; ++k)
        {
            if (!vm::myTurn()) continue;
            for (int t = 0; t < 4; ++t) for (uint32_t dl : delims)
            {
                std::vector<std::u32string> p; for (size_t i = 0, x = k; i < cnt; ++i, x /= 3) p.push_back(std::u32string(x % 3, char32_t(dl == 'p' ? 'q' : 'p' + i)));
                jn(t, p, dl);
                if (!p.empty()) { p[rng.below(p.size())].push_back(char32_t(dl)); jn(t, p, dl); }
            }
            VM_COUNT("all short piece lists");
        }
    }
    // every 8-bit delimiter and a spread of wider ones
    for (int t = 0; t < 4; ++t)
        for (uint32_t v = 0; v < (t == 0 ? 256u : 0x10000u); v += (t == 0 ? 1 : 1 + uint32_t(rng.below(13))))
        {
            if (!vm::myTurn()) continue;
            uint32_t dl = t == 3 && rng.chance(1, 2) ? v * 65537u : v;
            std::u32string d; for (int i = 0; i < 12; ++i) { d.push_back(rng.chance(1, 3) ? dl : rng.chance(1, 2) ? dl ^ (1u << rng.below(32)) : uint32_t(rng.below(0x110000))); }
            sp(t, d, dl);
            VM_COUNT("delimiter value");
        }
    // lengths around block sizes, delimiter at the ends and at every late offset
    for (size_t len : gen::padLens(s.thorough, s.thorough ? 16 : 12))
    {
        for (int t = 0; t < 4; ++t)
        {
        if (!vm::myTurn()) continue;
        uint32_t dl = delims[rng.below(8)]; char32_t o = dl == 'o' ? 'p' : 'o';
        std::u32string x(len, o);
        sp(t, x, dl); sp(t, x + char32_t(dl), dl); sp(t, char32_t(dl) + x, dl); sp(t, char32_t(dl) + x + char32_t(dl), dl); sp(t, x + char32_t(dl) + x, dl); sp(t, std::u32string(len, char32_t(dl)), dl);
        std::vector<std::u32string> p(len, std::u32string(1, o)); jn(t, p, dl); p.assign(len, std::u32string()); jn(t, p, dl); p.assign(3, x); jn(t, p, dl);
        for (int q = 0; q < 6 && len; ++q) { auto y = x; y[rng.below(len)] = dl; y[len - 1 - std::min<size_t>(len - 1, size_t(q))] = dl; sp(t, y, dl); }
        VM_COUNT("length around a block size");
        }
    }
    gen::combos(gen::kAny32, [&](const std::u32string& t) { int ty = int(rng.below(4)); sp(ty, t, uint32_t(t[0])); sp(ty, t + t, uint32_t(t[1])); jn(ty, { t, std::u32string(1, t[0]), t }, uint32_t(t[1])); });
    for (size_t len : gen::freshLong(500000)) if (vm::myTurn()) { int ty = int(rng.below(4)); sp(ty, std::u32string(len, U'k') + U';', ';'); sp(ty, std::u32string(len, U';'), ';'); jn(ty, std::vector<std::u32string>(len, U"k"), ';'); std::u32string x(len, U'k'); x[rng.below(len)] = U';'; sp(ty, x, ';'); }
    size_t n = s.thorough ? 6000000 : 500000;
    for (size_t i = 0; i < n; ++i)
    {
        int t = int(rng.below(4));
        std::u32string d;
        switch (rng.below(3))
        {
        case 0: d = gen::randText(rng, gen::kAny32); break;
        case 1: { size_t k = gen::randLen(rng); for (size_t j = 0; j < k; ++j) d.push_back(char32_t(rng.below(4))); } break;
        default: { for (char ch : gen::randText8(rng)) d.push_back((unsigned char)ch); } break;
        }
        uint32_t dl = !d.empty() && rng.chance(4, 5) ? uint32_t(d[rng.below(d.size())]) : delims[rng.below(8)];
        if (rng.chance(1, 6)) d.insert(0, 1 + rng.below(3), char32_t(dl));
        if (rng.chance(1, 6)) d.append(1 + rng.below(3), char32_t(dl));
        if (rng.chance(2, 3)) sp(t, d, dl);
        else { c = Case(); c.op = std::string("j:") + kT[t]; c.d = d; c.n.assign(1, rng.chance(1, 2) ? dl : 0x1234); size_t left = d.size(); while (left && c.n.size() < 300) { size_t k = rng.below(std::min<size_t>(left, 12) + 1); c.n.push_back((long long)k); left -= k; } if (rng.chance(1, 4)) c.n.push_back(0); vm::runHere(c); }
        VM_COUNT("random text");
    }
    for (int i = 0; i < (s.thorough ? 20 : 2); ++i)
    {
        std::u32string d; size_t len = 100000 + rng.below(100000); for (size_t j = 0; j < len; ++j) d.push_back(rng.chance(1, i % 2 ? 2 : 1000) ? U';' : U'k');
        sp(int(rng.below(4)), d, ';'); VM_COUNT("very long text");
        std::vector<std::u32string> p(70000 + rng.below(9000)); for (auto& x : p) x.assign(rng.below(3), U'k'); jn(int(rng.below(4)), p, ';');
        p.assign(3, std::u32string(70000 + rng.below(9000), U'k')); p[rng.below(3)][rng.below(70000)] = U'l'; jn(int(rng.below(4)), p, ';');
    }
}
Case fuzzCase(const uint8_t* p, size_t n)
{
    Case c; if (n < 3) { c.op = "s:c"; c.n.assign(1, ','); return c; }
    unsigned k = *p++; uint32_t dl = *p++; n -= 2;
    c.op = std::string(k & 4 ? "j:" : "s:") + kT[k & 3];
    if (k & 8) dl |= dl << 8;
    c.n.assign(1, dl);
    if (k & 4) for (unsigned i = 0; i < 6 && n; ++i, --n) c.n.push_back(*p++ % 7);
    for (size_t i = 0; i < n; ++i) c.d.push_back(p[i] == (dl & 0xFF) ? dl : p[i]);
    return c;
}
