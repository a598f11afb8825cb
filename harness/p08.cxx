// P08: character conditions mean a true conjunction, uniformly in all checks
#include "predspec.hxx"
using namespace ansak; using vm::Case; using gen::Rng;
using predspec::Spec; using predspec::Need;
const char* const kProperty = "P08";

static std::string show(const Spec& s)
{
    static const char* n[] = { "None", "Assigned", "Private", "Control", "Whitespace" };
    std::string r;
    for (long long c : s) r += std::string(predspec::neg(c) ? " and not " : " and ") + n[predspec::cls(c)];
    return r.empty() ? " (no condition)" : r;
}
static void expect(const Case& c, const Spec& s, model::Verdict v, bool got, const char* what, int r)
{
    if (v == model::vOpen) { VM_COUNT("verdict open"); return; }
    if (v == model::vTrue) VM_COUNT("verdict true expected"); else VM_COUNT("verdict false expected");
    if (got != (v == model::vTrue)) vm::fail(c, std::string(what) + " target " + (r < 0 ? "default" : kRName[r]) + " condition" + show(s) + ": answered " + vname(got));
}
static void single(const Case& c, const Spec& s, const EncodingCheckPredicate& p, const Need& n, uint32_t v)
{
    bool want = n.ok(model::classes(v, vm::st().version));
    if (p(char32_t(v)) != want) vm::fail(c, "predicate" + show(s) + " on 32-bit " + std::to_string(v) + ": answered " + vname(!want));
    if (v < 0x10000 && p(char16_t(v)) != want) vm::fail(c, "predicate" + show(s) + " on 16-bit " + std::to_string(v) + ": answered " + vname(!want));
    if (v < 0x100 && p(char(v)) != want) vm::fail(c, "predicate" + show(s) + " on 8-bit " + std::to_string(v) + ": answered " + vname(!want));
}

void checkCase(const Case& c)
{
    // n[0]: spelling; n[1..]: conditions; the text in b, w or d
    Spec s(c.n.begin() + (c.n.empty() ? 0 : 1), c.n.end());
    unsigned how = c.n.empty() ? 0 : unsigned(c.n[0]);
    EncodingCheckPredicate p = predspec::build(s, how);
    Need n = predspec::need(s);
    int ver = vm::st().version;
    if (n.contradictory()) VM_COUNT("contradictory predicate");
    auto ok = [&](char32_t v) { return n.ok(model::classes(v, ver)); };
    if (c.op == "single") { for (char32_t v : c.d) single(c, s, p, n, v); VM_COUNT("predicate on single characters"); return; }
    if (c.op == "cps")      // the same code points in every encoding
    {
        VM_COUNT("text in every encoding");
        model::Text t; t.cps = c.d;
        std::string b = model::enc8(c.d); std::u16string w = model::enc16(c.d);
        bool uni = model::allIn(c.d, model::rUnicode), bmp = model::allIn(c.d, model::rUcs2);
        for (int r = -1; r < model::rCount; ++r)
        {
            auto v = [&](int def) { return model::isFixed(t, r < 0 ? def : r, ok); };
            expect(c, s, v(model::rUtf8), r < 0 ? isUtf8(b, p) : isUtf8(b, kR[r], p), "isUtf8(string)", r);
            expect(c, s, v(model::rUtf8), r < 0 ? isUtf8(b.c_str(), p) : isUtf8(b.c_str(), kR[r], p), "isUtf8(pointer)", r);
            expect(c, s, v(model::rUcs4), r < 0 ? isUcs4(c.d, p) : isUcs4(c.d, kR[r], p), "isUcs4(string)", r);
            expect(c, s, v(model::rUcs4), r < 0 ? isUcs4(c.d.c_str(), p) : isUcs4(c.d.c_str(), kR[r], p), "isUcs4(pointer)", r);
            if (uni)
            {
                expect(c, s, v(model::rUtf16), r < 0 ? isUtf16(w, p) : isUtf16(w, kR[r], p), "isUtf16(string)", r);
                expect(c, s, v(model::rUtf16), r < 0 ? isUtf16(w.c_str(), p) : isUtf16(w.c_str(), kR[r], p), "isUtf16(pointer)", r);
            }
            if (bmp)
            {
                expect(c, s, v(model::rUcs2), r < 0 ? isUcs2(w, p) : isUcs2(w, kR[r], p), "isUcs2(string)", r);
                expect(c, s, v(model::rUcs2), r < 0 ? isUcs2(w.c_str(), p) : isUcs2(w.c_str(), kR[r], p), "isUcs2(pointer)", r);
            }
        }
        if (!b.empty()) expect(c, s, model::isFixed(t, model::rUtf8, ok), isUtf8(gen::guard().bare(b.data(), b.size()), unsigned(b.size()), p), "isUtf8(length)", -1);
        // the same text with surrogate pairs of three bytes each: all of them, every other one, the last one, the first one
        size_t sup = 0; for (char32_t v : c.d) sup += v > 0xFFFF && v < 0x110000;
        for (int k = 0; k < 4 && sup; ++k)
        {
            b.clear(); size_t i = 0;
            for (char32_t v : c.d) if (v > 0xFFFF && v < 0x110000 && (++i, k == 0 || (k == 1 && i % 2 == 0) || (k == 2 && i == sup) || (k == 3 && i == 1))) model::putCesu(b, v); else model::put8(b, v);
            model::Text m = model::dec8(b);
            for (int r = 0; r < model::rCount; ++r) expect(c, s, model::is8(m, r, ok), isUtf8(b, kR[r], p), "isUtf8(with pairs of three bytes)", r);
            expect(c, s, model::is8(m, model::rUtf8, ok), isUtf8(gen::guard().bare(b.data(), b.size()), unsigned(b.size()), p), "isUtf8(length, with pairs of three bytes)", -1);
            VM_COUNT("text with pairs of three bytes");
        }
        return;
    }
    // arbitrary code units
    if (c.op == "u8")
    {
        model::Text t = model::dec8(c.b); const char* q = gen::guard().z(c.b);
        for (int r = 0; r < model::rCount; ++r) expect(c, s, model::is8(t, r, ok), isUtf8(q, kR[r], p), "isUtf8", r);
        if (!c.b.empty()) expect(c, s, model::is8(t, model::rUtf8, ok), isUtf8(gen::guard().bare(c.b.data(), c.b.size()), unsigned(c.b.size()), p), "isUtf8(length)", -1);
    }
    else if (c.op == "u16")
    {
        model::Text t = model::dec16(c.w), t2 = model::dec2(c.w); const char16_t* q = gen::guard().z(c.w);
        for (int r = 0; r < model::rCount; ++r)
        {
            expect(c, s, model::is16(t, r, ok), isUtf16(q, kR[r], p), "isUtf16", r);
            expect(c, s, model::isFixed(t2, r, ok), isUcs2(q, kR[r], p), "isUcs2", r);
        }
    }
    else if (c.op == "u32")
    {
        model::Text t = model::dec32(c.d); const char32_t* q = gen::guard().z(c.d);
        for (int r = 0; r < model::rCount; ++r) expect(c, s, model::isFixed(t, r, ok), isUcs4(q, kR[r], p), "isUcs4", r);
    }
}

// all 81 predicates without contradiction, as condition lists
static std::vector<Spec> all81()
{
    std::vector<Spec> v;
    for (int k = 0; k < 81; ++k) { Spec s; for (int i = 0, x = k; i < 4; ++i, x /= 3) if (x % 3) s.push_back((i + 1) | (x % 3 == 2 ? 8 : 0)); v.push_back(s); }
    return v;
}

void workload()
{
    auto& s = vm::st();
    Rng rng(s.seed * 1000 + s.shard + 77 * s.version);
    bool full = s.version == 16 || s.thorough;
    Case c;
    auto specs = all81();
    for (int i = 1; i <= 4; ++i) { specs.push_back(Spec{ i, i | 8 }); specs.push_back(Spec{ i | 8, i }); specs.push_back(Spec{ i | 8, i, i }); specs.push_back(Spec{ i, i | 8, i | 8, i }); }
    // every code point through every predicate, all widths
    for (size_t k = 0; k < specs.size(); ++k)
    {
        if (!vm::myTurn()) continue;
        if (!full && specs[k].size() != 1) continue;
        Spec sp = specs[k];
        EncodingCheckPredicate p = predspec::build(sp, unsigned(rng.below(4)));
        Need n = predspec::need(sp);
        c = Case(); c.op = "single"; c.n.assign(1, 0); c.n.insert(c.n.end(), sp.begin(), sp.end()); c.d.assign(1, 0); s.cur = &c;
        for (uint32_t v = 0; v < 0x110000; ++v)
        {
            bool want = n.ok(model::classes(v, s.version));
            if (p(char32_t(v)) != want || (v < 0x10000 && p(char16_t(v)) != want) || (v < 0x100 && p(char(v)) != want)) { c.d[0] = v; single(c, sp, p, n, v); }
            vm::fastEval(true);
        }
        s.cur = nullptr;
        VM_COUNT("predicate on every code point");
    }
    // every code point through the checks themselves, alone, after and before a code point near it that satisfies the condition
    for (int k = 0; k < 8; ++k)
    {
        Spec sp{ (k / 2 + 1) | (k % 2 ? 8 : 0) }; Need nd = predspec::need(sp); EncodingCheckPredicate p = predspec::build(sp, 0);
        c = Case(); c.op = "cps"; c.n = { 0, sp[0] }; s.cur = &c;
        uint32_t step = s.shards * 256, friendBlock = ~0u, fr = 0; char b[16]; char16_t w[8]; char32_t d[4]; std::string eb; std::u16string ew;
        for (uint32_t base = s.shard * 256; base < 0x110000; base += step) for (uint32_t v = base ? base : 1; v < base + 256; ++v)
        {
            if (model::isSur(v)) continue;
            if (friendBlock != v >> 13) { friendBlock = v >> 13; fr = 0; for (uint32_t q = 0; q < 0x2000 && !fr; ++q) { uint32_t x = (friendBlock << 13) + (q * 1237 + k * 77 + s.seed * 31) % 0x2000; if (x && !model::isSur(x) && nd.ok(model::classes(x, s.version))) fr = x; } }
            bool want = nd.ok(model::classes(v, s.version)), bad = false;
            for (int shape = 0; shape < (fr ? 3 : 1); ++shape)
            {
                size_t n = 0; if (shape == 1) d[n++] = fr; d[n++] = v; if (shape == 2) d[n++] = fr; d[n] = 0;
                eb.clear(); ew.clear(); for (size_t q = 0; q < n; ++q) { model::put8(eb, d[q]); model::put16(ew, d[q]); }
                memcpy(b, eb.c_str(), eb.size() + 1); memcpy(w, ew.c_str(), 2 * (ew.size() + 1));
                bool bmp = v < 0x10000 && (shape == 0 || fr < 0x10000);
                if (isUtf8(b, kUnicode, p) != want || isUtf16(w, kUnicode, p) != want || isUcs4(d, kUnicode, p) != want || (bmp && isUcs2(w, kUnicode, p) != want) || isUtf8(b, unsigned(eb.size()), p) != want) { bad = true; c.d.assign(d, n); }
                vm::fastEval(true);
            }
            if (bad) { vm::runHere(c); vm::fail(c, "wrong in the sweep of all code points"); }
        }
        s.cur = nullptr; VM_COUNT("condition on every code point as text");
    }
    // chains of conditions: all up to 3 (with kIsNone), random longer ones, all spellings
    std::vector<long long> conds; for (int i = 0; i <= 4; ++i) { conds.push_back(i); conds.push_back(i | 8); }
    std::u32string probe; for (unsigned m : predspec::pools().masks) { auto& v = predspec::pools().by[m]; probe.push_back(v.front()); probe.push_back(v[v.size() / 2]); probe.push_back(v.back()); }
    for (uint32_t v : { 0xD800u, 0xDFFFu, 0x110000u, 0x11E000u, 0x100020u + 0x200000u, 0x80000020u, 0xFFFFFFFFu, 0xFFFFE000u, 0x01000041u, 0x10000009u, 0x00013000u }) probe.push_back(v);
    for (auto a : conds) for (auto b : conds) for (auto d : conds)
    {
        if (!vm::myTurn()) continue;
        for (unsigned how = 0; how < 4; ++how) { c = Case(); c.op = "single"; c.n = { (long long)how, a, b, d }; c.d = probe; vm::runHere(c); c.n.pop_back(); vm::runHere(c); }
    }
    size_t n = (s.thorough ? 2000000 : 150000) / (full ? 1 : 4);
    for (size_t i = 0; i < n; ++i)
    {
        Spec sp = predspec::randSpec(rng, rng.chance(1, 10) ? 12 : 5);
        Need nd = predspec::need(sp);
        c = Case(); c.n.assign(1, (long long)rng.below(4)); c.n.insert(c.n.end(), sp.begin(), sp.end());
        switch (rng.below(8))
        {
        case 0: c.op = "u8"; c.b = gen::randText8(rng); break;
        case 1: c.op = "u16"; c.w = gen::randText16(rng); break;
        case 2: c.op = "u32"; c.d = gen::randText32(rng); break;
        case 3: c.op = "single"; c.d = probe; { for (int q = 0; q < 20; ++q) c.d.push_back(gen::randCp(rng, gen::kAny32)); } break;
        default:
        {
            c.op = "cps";
            bool bmp = rng.chance(1, 3);
            size_t len = gen::randLen(rng, rng.chance(1, 3));
            for (size_t k = 0; k < len; ++k) c.d.push_back(predspec::pick(rng, nd, true, bmp));
            if (rng.chance(1, 2)) c.d.insert(c.d.begin() + (long)rng.below(c.d.size() + 1), predspec::pick(rng, nd, false, bmp));
            if (rng.chance(1, 12)) c.d.push_back(gen::edgeBeyond()[rng.below(gen::edgeBeyond().size())]);
            VM_COUNT("text of one class, with at most one other");
        }
        }
        vm::runHere(c);
    }
    // neighbours that mean something together
    if (full) gen::combos(gen::kUnicode, [&](const std::u32string& t) {
        Spec sp = predspec::randSpec(rng, rng.chance(1, 2) ? 1 : 4); Need nd = predspec::need(sp);
        c = Case(); c.op = "cps"; c.n.assign(1, (long long)rng.below(4)); c.n.insert(c.n.end(), sp.begin(), sp.end()); c.d = t;
        if (rng.chance(1, 3)) c.d.insert(c.d.begin() + (long)rng.below(c.d.size() + 1), predspec::pick(rng, nd, true, false));
        vm::runHere(c);
    });
    // a violator at every offset near block sizes
    for (size_t len : gen::padLens(s.thorough, s.thorough ? 14 : full ? 11 : 7))
        for (int k = 0; k < 8; ++k)
        {
            if (!vm::myTurn()) continue;
            Spec sp{ (k / 2 + 1) | (k % 2 ? 8 : 0) };
            Need nd = predspec::need(sp);
            c = Case(); c.op = "cps"; c.n = { 0, sp[0] };
            c.d.assign(len, char32_t(predspec::pick(rng, nd, true, rng.chance(1, 2))));
            c.d.push_back(predspec::pick(rng, nd, false, rng.chance(1, 2))); vm::runHere(c);
            c.d.append(1 + rng.below(9), char32_t(predspec::pick(rng, nd, true, rng.chance(1, 2)))); vm::runHere(c);
            VM_COUNT("violator at offset");
        }
    for (size_t i = 0; i < (s.thorough ? 40u : full ? 3u : 1u); ++i)
    {
        Spec sp = predspec::randSpec(rng, 3); Need nd = predspec::need(sp);
        bool bmp = rng.chance(1, 2); size_t len = 66000 + rng.below(80000);
        c = Case(); c.op = "cps"; c.n.assign(1, 0); c.n.insert(c.n.end(), sp.begin(), sp.end());
        for (size_t k = 0; k < len; ++k) c.d.push_back(predspec::pick(rng, nd, true, bmp));
        vm::runHere(c); c.d[rng.below(len)] = predspec::pick(rng, nd, false, bmp); vm::runHere(c);
        VM_COUNT("very long text");
    }
    // text ending inside a sequence: the condition still binds what is complete
    for (size_t i = 0; i < n / 4; ++i)
    {
        Spec sp = predspec::randSpec(rng, 3); Need nd = predspec::need(sp);
        c = Case(); c.n.assign(1, 0); c.n.insert(c.n.end(), sp.begin(), sp.end());
        std::u32string t; size_t len = rng.below(6);
        for (size_t k = 0; k < len; ++k) t.push_back(predspec::pick(rng, nd, rng.chance(9, 10), false));
        if (rng.chance(1, 2)) { c.op = "u8"; c.b = model::enc8(t) + gen::shapes8().partial[rng.below(gen::shapes8().partial.size())]; }
        else { c.op = "u16"; c.w = model::enc16(t); c.w.push_back(char16_t(0xD800 + rng.below(0x400))); }
        vm::runHere(c);
        VM_COUNT("condition before an incomplete end");
    }
}
Case fuzzCase(const uint8_t* p, size_t n)
{
    Case c; if (n < 2) { c.op = "single"; c.n.assign(1, 0); return c; }
    unsigned k = *p++ % 4; unsigned cnt = *p++ % 6; n -= 2;
    c.n.push_back(long(k));
    for (unsigned i = 0; i < cnt && n; ++i, --n) c.n.push_back(*p++ & 15);
    if (k == 0) { c.op = "u8"; c.b = gen::fz8(p, n); }
    else if (k == 1) { c.op = "u16"; c.w = gen::fz16(p, n); }
    else if (k == 2) { c.op = "u32"; c.d = gen::fz32(p, n); }
    else { c.op = "cps"; for (char32_t v : gen::fz32(p, n)) { v &= 0x1FFFFF; if (v && !model::isSur(v)) c.d.push_back(v); } }
    return c;
}
