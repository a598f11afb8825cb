// P23: runs the table of operations of one program (compiled its way, p23_ops.cxx) on a fixed list of cases and writes the
// hash of every result to a log; props.py compares the logs of all programs.
// Cases: random ones, all code points 256 to a text, code points on their own (256 to a case), all pairs of bytes.
#define VM_OWN_MAIN
#include "api.hxx"
using vm::Case; using gen::Rng;
const char* const kProperty = "P23";
extern "C" const void* p23_a();
extern "C" const void* p23_b();

static size_t N = 100; static uint64_t gSeed = 1; static bool gThorough = false;
static const size_t kTexts = 0x110000 / 256;
static bool single(size_t block) { return gThorough ? block < 0x300 || block >= 0xE00 : block < 0x20 || block == 0x30 || block == 0x80 || block == 0xAC || (block >= 0xD7 && block <= 0xE0) || block >= 0xF8 ? block < 0x120 || block == 0x1D4 || block == 0x1E9 || block == 0x10FF : false; }
static const std::vector<size_t>& singles() { static std::vector<size_t> v; if (v.empty()) for (size_t i = 0; i < kTexts; ++i) if (single(i)) v.push_back(i); return v; }
static size_t cases() { return N + kTexts + singles().size() + 256; }

// the texts of a case (one, or 256)
static size_t parts(size_t i) { return i < N + kTexts ? 1 : 256; }
static Case part(size_t i, size_t k)
{
    Case c; c.op = "api";
    if (i < N) { Rng r(gSeed * 31337 + i); return api::randCase(r, false, i % 32 == 0); }
    i -= N;
    c.n = { 0, (long long)(i % 6), (long long)(i / 6 % 5), (long long)(i / 30 % 5), (long long)(i % 3), (long long)(32 + i % 96) };
    c.s = api::kLangs[i % (sizeof api::kLangs / sizeof api::kLangs[0])];
    if (i < kTexts) { for (uint32_t u = 0; u < 256; ++u) { uint32_t v = uint32_t(i * 256 + u); if (v && (v < 0xD800 || v > 0xDFFF)) c.d.push_back(v); } c.b = model::enc8(c.d); c.w = model::enc16(c.d); return c; }
    i -= kTexts;
    if (i < singles().size())
    {
        uint32_t v = uint32_t(singles()[i] * 256 + k); if (!v) v = 0x7FFFFFFF;
        c.d.assign(1, v);
        if (v >= 0xD800 && v <= 0xDFFF) { c.w.assign(1, char16_t(v)); c.b = { char(0xED), char(0x80 | ((v >> 6) & 63)), char(0x80 | (v & 63)) }; }
        else { c.b = model::enc8(c.d); if (v < 0x110000) c.w = model::enc16(c.d); }
        c.n[4] = (long long)(k % 3);
        return c;
    }
    i -= singles().size();
    c.b = { char(i ? i : 0x80), char(k ? k : 0xC2) }; c.w = { char16_t(i << 8 | (k ? k : 1)), char16_t(0xDC00 + k) }; c.d = { char32_t(i << 24 | k << 8 | 0x41) };
    c.n[4] = (long long)(k % 3);
    return c;
}

static std::vector<uint64_t> run(const std::vector<api::Op>& ops, size_t limit)
{
    auto& s = vm::st();
    std::vector<uint64_t> log; api::Args a;
    for (size_t i = 0; i < limit; ++i)
    {
        size_t at = log.size(); log.resize(at + ops.size(), 0x9E3779B97F4A7C15ull);
        bool all = i < N + kTexts + singles().size();
        for (size_t k = 0; k < parts(i); ++k)
        {
            Case c = part(i, k); s.cur = &c;
            api::load(a, c); auto v = a.view();
            for (size_t o = 0; o < ops.size(); ++o)
            {
                if (!all && ops[o].uses != 'b') continue;
                if (ops[o].inPlace) a.victims();
                api::Sink r; ops[o].f(v, r);
                uint64_t& x = log[at + o]; x = parts(i) == 1 ? r.h : (x ^ r.h) * 0x100000001B3ull;
                ++s.evaluations; ++s.heart;
            }
            s.cur = nullptr;
        }
        s.distinct += 1;
    }
    return log;
}

void checkCase(const Case&) {}
int main(int argc, char** argv)
{
    auto e = [](const char* k, const char* d) { const char* v = getenv(k); return std::string(v ? v : d); };
    vm::configure({ { "version", e("P23_VERSION", "16") }, { "out", e("P23_OUT", "") }, { "dict", e("P23_DICT", "") }, { "tier", e("P23_TIER", "quick") } });
    N = size_t(atoi(e("P23_N", "100").c_str())); gSeed = strtoull(e("P23_SEED", "1").c_str(), nullptr, 10); gThorough = vm::st().thorough;
    auto& A = *static_cast<const std::vector<api::Op>*>(p23_a()); auto& B = *static_cast<const std::vector<api::Op>*>(p23_b());
    if (A.size() != B.size()) return 5;
    if (argc == 2 && !strcmp(argv[1], "--ops")) { for (auto& o : A) printf("%s\n", o.name); return 0; }
    if (argc == 2 && !strcmp(argv[1], "--cases")) { printf("%zu %zu\n", cases(), N + 200); return 0; }
    if (argc == 4 && !strcmp(argv[1], "--dump"))        // the text of the case on which the operation differs is not known to one program: all of them
    {
        size_t i = size_t(atoll(argv[2]));
        printf("%s\n", vm::text(part(i, size_t(atoll(argv[3])))).c_str()); return 0;
    }
    vm::installHandlers();
    std::string f = e("P23_LOG", "/dev/null");
    FILE* o = fopen(f.c_str(), "wb"); if (!o) return 5;
    // the second table only on the random cases and the first texts: its own compilation has its own program
    for (auto& l : { run(A, cases()), run(B, N + 200) }) if (fwrite(l.data(), 8, l.size(), o) != l.size()) return 5;
    if (fclose(o)) return 5;
    vm::ev("results logged", vm::st().evaluations);
    vm::finish(); return 0;
}
