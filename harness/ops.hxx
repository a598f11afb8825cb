// ops.hxx -- every public operation as an entry of a table, with its arguments in a View and its
// result folded into a hash. C++11, so that it can stand for any program that uses the interface.
// The public headers come before it; API_PUBLIC_ONLY leaves out what is not public, API_LINKAGE is
// static where several translation units have a table each.
#pragma once
#include <string>
#include <vector>
#include <type_traits>
#include <stdint.h>
#ifndef API_LINKAGE
#define API_LINKAGE inline
#endif

namespace api {

struct View
{
    // texts as string objects, as NUL-terminated pointers and as bare units of a given length
    const std::string* b; const std::u16string* w; const std::u32string* d; const std::wstring* ww;
    const char* pb; const char16_t* pw; const char32_t* pd; const wchar_t* pww;
    const char* lb; const char16_t* lw; const char32_t* ld; unsigned nb, nw, nd;
    const char* lang;                               // may be null
    const ansak::EncodingCheckPredicate* pred;
    ansak::RangeType range; ansak::EncodingType et, et2; ansak::SourceEncoding src;
    uint32_t delim;
    const std::string* set8; const std::u16string* set16; const std::u32string* set32; const std::wstring* setw;
    const std::vector<std::string>* p8; const std::vector<std::u16string>* p16; const std::vector<std::u32string>* p32; const std::vector<std::wstring>* pwd;
    // texts to be changed in place
    std::string* vb; std::u16string* vw; std::u32string* vd; std::wstring* vww;
};

// folds results; allocates nothing
struct Sink
{
    uint64_t h = 0xcbf29ce484222325ull;
    void put(uint64_t v) { h = (h ^ v) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; }
    void operator()(bool v) { put(v ? 3 : 5); }
    void operator()(unsigned v) { put(v); }
    void operator()(char32_t v) { put(v); }
    template <class C> void operator()(const std::basic_string<C>& s) { put(s.size()); for (C c : s) put(uint64_t(uint32_t(typename std::conditional<sizeof(C) == 1, unsigned char, C>::type(c)))); if (s.c_str()[s.size()] != 0) put(99); }
    template <class S> void operator()(const std::vector<S>& v) { put(v.size()); for (auto& s : v) (*this)(s); }
};

struct Op { const char* name; void (*f)(const View&, Sink&); char uses; bool inPlace; };

API_LINKAGE const std::vector<Op>& ops()
{
    using namespace ansak;
    static const std::vector<Op> v = {
#define OP(name, uses, body) { name, [](const View& v, Sink& r) { body; }, uses, false }
#define OPV(name, uses, body) { name, [](const View& v, Sink& r) { body; }, uses, true }
        OP("getUnicodeVersionSupported", '-', r(getUnicodeVersionSupported())),
        OP("isUtf8(string)", 'b', r(isUtf8(*v.b))), OP("isUtf8(string,range)", 'b', r(isUtf8(*v.b, v.range))), OP("isUtf8(string,range,pred)", 'b', r(isUtf8(*v.b, v.range, *v.pred))),
        OP("isUtf8(string,pred)", 'b', r(isUtf8(*v.b, *v.pred))), OP("isUtf8(ptr)", 'b', r(isUtf8(v.pb))), OP("isUtf8(ptr,range)", 'b', r(isUtf8(v.pb, v.range))),
        OP("isUtf8(ptr,range,pred)", 'b', r(isUtf8(v.pb, v.range, *v.pred))), OP("isUtf8(ptr,pred)", 'b', r(isUtf8(v.pb, *v.pred))),
        OP("isUtf8(ptr,length)", 'b', if (v.nb) r(isUtf8(v.lb, v.nb))), OP("isUtf8(ptr,length,pred)", 'b', if (v.nb) r(isUtf8(v.lb, v.nb, *v.pred))),
        OP("isUtf16(string,range,pred)", 'w', r(isUtf16(*v.w, v.range, *v.pred))), OP("isUtf16(ptr,range,pred)", 'w', r(isUtf16(v.pw, v.range, *v.pred))),
        OP("isUtf16(string)", 'w', r(isUtf16(*v.w))), OP("isUtf16(ptr)", 'w', r(isUtf16(v.pw))), OP("isUtf16(string,pred)", 'w', r(isUtf16(*v.w, *v.pred))), OP("isUtf16(ptr,pred)", 'w', r(isUtf16(v.pw, *v.pred))),
        OP("isUtf16(ptr,range)", 'w', r(isUtf16(v.pw, v.range))),
        OP("isUcs2(string,range,pred)", 'w', r(isUcs2(*v.w, v.range, *v.pred))), OP("isUcs2(ptr,range,pred)", 'w', r(isUcs2(v.pw, v.range, *v.pred))),
        OP("isUcs2(string)", 'w', r(isUcs2(*v.w))), OP("isUcs2(ptr)", 'w', r(isUcs2(v.pw))), OP("isUcs2(ptr,pred)", 'w', r(isUcs2(v.pw, *v.pred))), OP("isUcs2(string,pred)", 'w', r(isUcs2(*v.w, *v.pred))),
        OP("isUcs4(string,range,pred)", 'd', r(isUcs4(*v.d, v.range, *v.pred))), OP("isUcs4(ptr,range,pred)", 'd', r(isUcs4(v.pd, v.range, *v.pred))),
        OP("isUcs4(string)", 'd', r(isUcs4(*v.d))), OP("isUcs4(ptr)", 'd', r(isUcs4(v.pd))), OP("isUcs4(ptr,pred)", 'd', r(isUcs4(v.pd, *v.pred))), OP("isUcs4(string,pred)", 'd', r(isUcs4(*v.d, *v.pred))),
        OP("toUtf8(utf16 string)", 'w', r(toUtf8(*v.w))), OP("toUtf8(utf16 ptr)", 'w', r(toUtf8(v.pw))), OP("toUtf8(ucs4 string)", 'd', r(toUtf8(*v.d))), OP("toUtf8(ucs4 ptr)", 'd', r(toUtf8(v.pd))),
        OP("toUcs2(utf8 string)", 'b', r(toUcs2(*v.b))), OP("toUcs2(utf8 ptr)", 'b', r(toUcs2(v.pb))), OP("toUcs2(ucs4 string)", 'd', r(toUcs2(*v.d))), OP("toUcs2(ucs4 ptr)", 'd', r(toUcs2(v.pd))),
        OP("toUtf16(utf8 string)", 'b', r(toUtf16(*v.b))), OP("toUtf16(utf8 ptr)", 'b', r(toUtf16(v.pb))), OP("toUtf16(ucs4 string)", 'd', r(toUtf16(*v.d))), OP("toUtf16(ucs4 ptr)", 'd', r(toUtf16(v.pd))),
        OP("toUcs4(utf8 string)", 'b', r(toUcs4(*v.b))), OP("toUcs4(utf8 ptr)", 'b', r(toUcs4(v.pb))), OP("toUcs4(utf16 string)", 'w', r(toUcs4(*v.w))), OP("toUcs4(utf16 ptr)", 'w', r(toUcs4(v.pw))),
        OP("unicodeLength(utf8 string)", 'b', r(unicodeLength(*v.b))), OP("unicodeLength(utf8 ptr)", 'b', r(unicodeLength(v.pb))), OP("unicodeLength(utf8 length)", 'b', if (v.nb) r(unicodeLength(v.lb, v.nb))),
        OP("unicodeLength(utf16 string)", 'w', r(unicodeLength(*v.w))), OP("unicodeLength(utf16 ptr)", 'w', r(unicodeLength(v.pw))), OP("unicodeLength(utf16 length)", 'w', if (v.nw) r(unicodeLength(v.lw, v.nw))),
        OP("unicodeLength(ucs4 string)", 'd', r(unicodeLength(*v.d))), OP("unicodeLength(ucs4 ptr)", 'd', r(unicodeLength(v.pd))), OP("unicodeLength(ucs4 length)", 'd', if (v.nd) r(unicodeLength(v.ld, v.nd))),
        OP("toLower(utf8)", 'b', r(toLower(*v.b, v.lang))), OP("toLower(utf16)", 'w', r(toLower(*v.w, v.lang))), OP("toLower(ucs4)", 'd', r(toLower(*v.d, v.lang))),
        OP("toLower(utf8), no language", 'b', r(toLower(*v.b))), OP("toLower(utf16), no language", 'w', r(toLower(*v.w))), OP("toLower(ucs4), no language", 'd', r(toLower(*v.d))),
        OP("toUtf8(code page)", 'b', r(toUtf8(v.pb, v.src))),
        OP("isUtf8(wide)", 'W', r(isUtf8(v.pww)); r(isUtf8(*v.ww))), OP("isUtf16(wide)", 'W', r(isUtf16(v.pww)); r(isUtf16(*v.ww))), OP("isUcs2(wide)", 'W', r(isUcs2(v.pww)); r(isUcs2(*v.ww))), OP("isUcs4(wide)", 'W', r(isUcs4(v.pww)); r(isUcs4(*v.ww))),
        OP("toUtf8(wide)", 'W', r(toUtf8(v.pww))), OP("toUtf16(wide)", 'W', r(toUtf16(*v.ww))), OP("toUcs2(wide)", 'W', r(toUcs2(v.pww))), OP("toUcs4(wide)", 'W', r(toUcs4(*v.ww))), OP("toUcs4(wide ptr)", 'W', r(toUcs4(v.pww))),
        OP("isWstring(utf8)", 'b', r(isWstring(v.pb))), OP("isWstring(utf16)", 'w', r(isWstring(v.pw))), OP("isWstring(ucs4)", 'd', r(isWstring(v.pd))),
        OP("toWstring(utf8)", 'b', r(toWstring(v.pb))), OP("toWstring(utf16)", 'w', r(toWstring(*v.w))), OP("toWstring(ucs4)", 'd', r(toWstring(v.pd))), OP("toWstring(utf8 string)", 'b', r(toWstring(*v.b))), OP("toWstring(ucs4 string)", 'd', r(toWstring(*v.d))),
        OP("predicate(char32_t)", 'd', for (char32_t c : *v.d) r((*v.pred)(c))), OP("predicate(char16_t)", 'w', for (char16_t c : *v.w) r((*v.pred)(c))), OP("predicate(char)", 'b', for (char c : *v.b) r((*v.pred)(c))),
        OP("predicate building", '-', auto p = validIf(v.et); auto q = p.andIfNot(v.et2); auto s = validIfNot(v.et2).andIf(v.et); auto t = EncodingCheckPredicate::checkIf(v.et2); r(p == q); r(q != s); r(s(U'a')); r(t(u'\u3000')); r(t == *v.pred); r(EncodingCheckPredicate::checkIfNot(v.et)('x'))),
#ifndef API_PUBLIC_ONLY
        OP("decodeUtf8 walk", 'b', if (v.pb) { const char* p = v.pb; while (p && *p) { char32_t c = internal::decodeUtf8(p); r(c); r(p == nullptr); if (p && *p) ++p; } }),
#endif
        OP("split(char)", 'b', r(split(*v.b, char(v.delim)))), OP("split(char16_t)", 'w', r(split(*v.w, char16_t(v.delim)))), OP("split(char32_t)", 'd', r(split(*v.d, char32_t(v.delim)))), OP("split(wchar_t)", 'W', r(split(*v.ww, wchar_t(v.delim)))),
        OP("join(char)", 'b', r(join(*v.p8, char(v.delim)))), OP("join(char16_t)", 'w', r(join(*v.p16, char16_t(v.delim)))), OP("join(char32_t)", 'd', r(join(*v.p32, char32_t(v.delim)))), OP("join(wchar_t)", 'W', r(join(*v.pwd, wchar_t(v.delim)))),
        OPV("trim(char)", 'b', trim(*v.vb); r(*v.vb)), OPV("trim(char16_t)", 'w', trim(*v.vw); r(*v.vw)), OPV("trim(char32_t)", 'd', trim(*v.vd); r(*v.vd)), OPV("trim(wchar_t)", 'W', trim(*v.vww); r(*v.vww)),
        OPV("trim(char,set)", 'b', trim(*v.vb, *v.set8); r(*v.vb)), OPV("trim(char16_t,set)", 'w', trim(*v.vw, *v.set16); r(*v.vw)), OPV("trim(char32_t,set)", 'd', trim(*v.vd, *v.set32); r(*v.vd)), OPV("trim(wchar_t,set)", 'W', trim(*v.vww, *v.setw); r(*v.vww)),
        OPV("trimAscii7WhiteSpace", 'b', trimAscii7WhiteSpace(*v.vb); r(*v.vb)), OPV("trimWhiteSpace(utf8)", 'b', trimWhiteSpace(*v.vb); r(*v.vb)), OPV("trimWhiteSpace(utf16)", 'w', trimWhiteSpace(*v.vw); r(*v.vw)), OPV("trimWhiteSpace(ucs4)", 'd', trimWhiteSpace(*v.vd); r(*v.vd)),
#undef OP
#undef OPV
    };
    return v;
}
} // namespace api
