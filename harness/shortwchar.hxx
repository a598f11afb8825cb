// for -fshort-wchar: included before everything else (library and harness), so that std::wstring works with 16-bit units
#pragma once
#include <cwchar>
#include <cstdint>
#include <cstddef>
static_assert(sizeof(wchar_t) == 2, "needs -fshort-wchar");
// the C library's wide functions are made for 32-bit wide characters; std::wstring gets these instead
namespace std {
inline size_t vw_len(const wchar_t* p) { size_t n = 0; while (p[n]) ++n; return n; }
inline int vw_cmp(const wchar_t* a, const wchar_t* b, size_t n) { for (size_t i = 0; i < n; ++i) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
inline const wchar_t* vw_chr(const wchar_t* a, wchar_t c, size_t n) { for (size_t i = 0; i < n; ++i) if (a[i] == c) return a + i; return nullptr; }
inline wchar_t* vw_cpy(wchar_t* d, const wchar_t* s, size_t n) { for (size_t i = 0; i < n; ++i) d[i] = s[i]; return d; }
inline wchar_t* vw_mov(wchar_t* d, const wchar_t* s, size_t n) { if (d < s) for (size_t i = 0; i < n; ++i) d[i] = s[i]; else while (n) { --n; d[n] = s[n]; } return d; }
inline wchar_t* vw_set(wchar_t* d, wchar_t c, size_t n) { for (size_t i = 0; i < n; ++i) d[i] = c; return d; }
}
using std::vw_len; using std::vw_cmp; using std::vw_chr; using std::vw_cpy; using std::vw_mov; using std::vw_set;
#define wcslen vw_len
#define wmemcmp vw_cmp
#define wmemchr vw_chr
#define wmemcpy vw_cpy
#define wmemmove vw_mov
#define wmemset vw_set
