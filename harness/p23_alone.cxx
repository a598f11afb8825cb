// P23: one installed header and nothing else before it (P23_HEADER: 1 string, 2 string_splitjoin, 3 string_trim), everything
// it offers used; P23_NAME keeps the copies of several such files of one program apart.
#if P23_HEADER == 1
#include <ansak/string.hxx>
#include <ansak/string.hxx>
using namespace ansak;
extern "C" unsigned P23_NAME(const char* b, const char16_t* w, const char32_t* d, const wchar_t* x)
{
    EncodingCheckPredicate p = validIf(kIsAssigned).andIfNot(kIsPrivate), q = EncodingCheckPredicate::checkIfNot(kIsControl).andIf(kIsWhitespace), n;
    unsigned r = unsigned(getUnicodeVersionSupported().size()) + (p == q) + (p != n) + p('a') + q(u'b') + n(U'c');
    r += isUtf8(b) + isUtf8(b, kUnicode) + isUtf8(b, kAscii, p) + isUtf8(b, q) + isUtf16(w) + isUtf16(w, kUtf16, p) + isUcs2(w) + isUcs2(w, kUcs2, q) + isUcs4(d) + isUcs4(d, kUcs4, p);
    std::string s = toUtf8(w) + toUtf8(d) + toUtf8(b, kSrcCP1252) + toUtf8(x) + toLower(std::string(b)) + toLower(std::string(b), "tr");
    std::u16string u = toUtf16(b) + toUtf16(d) + toUcs2(b) + toUcs2(d) + toUtf16(x) + toUcs2(x) + toLower(std::u16string(w));
    std::u32string v = toUcs4(b) + toUcs4(w) + toUcs4(x) + toLower(std::u32string(d));
    std::wstring y = toWstring(b) + toWstring(w) + toWstring(d);
    r += isUtf8(x) + isUtf16(x) + isUcs2(x) + isUcs4(x) + isWstring(b) + isWstring(w) + isWstring(d);
    return r + unicodeLength(b) + unicodeLength(w) + unicodeLength(d) + unsigned(s.size() + u.size() + v.size() + y.size());
}
#elif P23_HEADER == 2
#include <ansak/string_splitjoin.hxx>
#include <ansak/string_splitjoin.hxx>
using namespace ansak;
extern "C" unsigned P23_NAME(const char* b, const char16_t* w, const char32_t* d, const wchar_t* x)
{
    return unsigned(join(split(std::string(b), ','), ';').size() + join(split(std::u16string(w), u','), u';').size() + join(split(std::u32string(d), U','), U';').size() + join(split(std::wstring(x), L','), L';').size());
}
#else
#include <ansak/string_trim.hxx>
#include <ansak/string_trim.hxx>
using namespace ansak;
extern "C" unsigned P23_NAME(const char* b, const char16_t* w, const char32_t* d, const wchar_t* x)
{
    std::string s(b); std::u16string u(w); std::u32string v(d); std::wstring y(x);
    trim(s); trim(u); trim(v); trim(y);
    trim(s, std::string(" ")); trim(u, std::u16string(u" ")); trim(v, std::u32string(U" ")); trim(y, std::wstring(L" "));
    trimAscii7WhiteSpace(s); trimWhiteSpace(s); trimWhiteSpace(u); trimWhiteSpace(v);
    return unsigned(s.size() + u.size() + v.size() + y.size());
}
#endif
