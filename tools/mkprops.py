#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
S="source/string.cxx"; I="source/string_internal.hxx"; H="interface/string.hxx"; D="source/string_decode_utf8.cxx"
L="source/string_tolower.cxx"; E="source/encoding_check_predicate.cxx"; T="source/string_toutf8.cxx"
SJ="interface/string_splitjoin.hxx"; TR="interface/string_trim.hxx"; MK="mkUnicodeTestData/mkUnicodeTestData.cxx"
BU="source/bits*/char_is_unicode.cxx"; BL="source/bits*/char_to_lower.cxx"

p("P01","Validity verdicts are exact for every encoding and target range",
 "For every text in UTF-8, UTF-16, UCS-2 or UCS-4 and every target range (ASCII, UTF-8, UCS-2, UTF-16, UCS-4, Unicode), the validity check answers true exactly when the text is well formed in its source encoding and each of its code points belongs to the target range; a value that is not a target range answers false and empty or null text answers true. Well-formed UTF-8 here means shortest-form sequences of one to six bytes up to 0x7FFFFFFF, plus a high and a low surrogate of three bytes each standing for one code point; overlong forms, stray or missing continuation bytes, bytes FE and FF and unpaired surrogates are never well formed. A sequence cut short by the end of the text is ignored when it could still have been completed for the target range, and anywhere else in the text it is an error.",
 ["inputs"],"every finite code-unit sequence without a NUL, of any length and alignment, times every target range, including values outside the enumeration",
 "The unit tests sample a few dozen strings per overload; the space is every byte, 16-bit and 32-bit sequence, and off-by-one errors at one boundary (a lead byte, a range limit, a position in the text) are invisible to samples.",
 [H,S,I,D],[("per-unit range flags","getRangeFlag / getCharEncodableRangeFlags in "+I),("scanner of UTF-8","isUtf8 in "+S),("scanners of 16 and 32 bit text","isUtf16, isUcs2, isUcs4 in "+S),("single code point decoder","decodeUtf8 in "+D)],["return value of isUtf8, isUtf16, isUcs2, isUcs4"])
p("P02","Text that passes a validity check always re-encodes",
 "Whenever a validity check accepts a non-empty text for a target encoding, converting that text to that encoding succeeds: the result contains every complete code point of the text, and it passes the validity check of the target encoding itself. Conversely, when the check rejects a text that has no incomplete sequence at its end, the conversion to that encoding gives an empty string.",
 ["inputs"],"every finite code-unit sequence in each source encoding, times every target encoding that has a conversion",
 "It is a relation between two separately written scanners (the checker and the converter) over all inputs; tests check each on chosen strings and never the pair on the same random text.",
 [H,S,I],[("validity scanners","is* functions in "+S),("conversion loops","to* functions in "+S)],["return values of is* and to* on the same text"])
p("P03","Conversions are exact and all-or-nothing",
 "Converting text between UTF-8, UTF-16, UCS-2 and UCS-4 gives exactly the code points of the source, in order, in the canonical form of the target (shortest-form UTF-8, surrogate pairs only above U+FFFF in UTF-16). If any part of the source is malformed or has no form in the target, the result is empty, never a prefix, a substitution or a partly converted string; only an incomplete sequence at the very end of the source is dropped.",
 ["inputs"],"every finite code-unit sequence without a NUL, for each of the eight source/target pairs, of any length",
 "The tests convert a handful of fixed strings; a wrong bit in one code point range, or a prefix kept after an error deep in a long string, needs all code points in all positions.",
 [H,S,I,D],[("conversion loops","toUtf8, toUcs2, toUtf16, toUcs4 in "+S),("encoders","encodeUtf8, rawEncodeUtf16 in "+I),("decoder","decodeUtf8 in "+D)],["return value of each to* function"])
p("P04","Round trips through any chain of encodings lose nothing",
 "For every valid Unicode text, any sequence of conversions among UTF-8, UTF-16 and UCS-4 (and UCS-2 and wide strings where every code point fits) that returns to the starting encoding gives back the identical text. The number of code points and the answers of the validity checks stay the same at every step of the chain.",
 ["inputs","histories"],"every valid Unicode text and every finite chain of supported conversions",
 "Tests check single hops on fixed strings; the chain space is unbounded and compensating errors in one encode/decode pair only show when hops are mixed.",
 [H,S,I],[("conversion loops","to* functions in "+S),("encoders and decoders","encodeUtf8, rawDecodeUtf8, rawEncodeUtf16, rawDecodeUtf16 in "+I)],["every intermediate string of the chain"])
p("P05","Stepping a UTF-8 decoder over text visits each code point exactly once",
 "Decoding one code point at a position of NUL-terminated UTF-8 returns that code point and leaves the position on the last byte that belongs to it; on a malformed sequence it returns 0 and a null position; when the text ends inside a sequence it returns 0 and leaves the position on the terminating NUL. The result depends only on the bytes from the position on, so stepping from the start visits every code point of valid text once, in order, and never passes the terminator.",
 ["inputs"],"every NUL-terminated byte sequence and every position in it",
 "Tests decode selected sequences; the contract is over all sequences of one to six (or two times three) bytes followed by anything.",
 ["interface/internal/string_decode_utf8.hxx",D,I],[("decoder","decodeUtf8 in "+D),("bit assembly","rawDecodeUtf8 overloads in "+I)],["return value and position after each step"])
p("P06","Length-bounded scans never look past their bound",
 "When a text is given with an explicit non-zero length, checking it or counting its code points reads no code unit at or beyond that length (nor before the start), whatever follows in memory, and no terminator is needed. The answer depends only on the units inside the bound, and for a bounded text without NULs or an incomplete end it equals the answer for the same units followed by a terminator.",
 ["inputs"],"every code-unit sequence, every length of it, and every content of the memory around it",
 "Tests pass string literals, which always have readable memory and a NUL after them; an over-read changes nothing they can see.",
 [H,S],[("length bookkeeping","lengthLeft / usedThisTime in isUtf8 and unicodeLength in "+S),("partial-sequence test","isPartialUtf8 in "+S)],["memory accesses at the bound (inaccessible page)","return values under different surroundings"])
p("P07","Code point counts are right in every encoding",
 "The reported length of a text is its number of code points: for every valid Unicode text it is the same in UTF-8, UTF-16 and UCS-4, NUL-terminated or with an explicit length, and equals the size of its UCS-4 form. Malformed text, UTF-8 that encodes values above U+10FFFF, empty text and null pointers count 0; an incomplete sequence at the end is not counted and does not change the count of what precedes it.",
 ["inputs"],"every finite code-unit sequence in each encoding, of any length, in NUL-terminated and length-terminated form",
 "Tests count a few strings; off-by-one at the end, at a surrogate pair or at a length limit depends on the exact tail.",
 [H,S],[("counting loops","unicodeLength overloads in "+S)],["return value of unicodeLength"])
p("P08","Character conditions mean a true conjunction, uniformly in all checks",
 "A predicate built from any sequence of must-be and must-not-be conditions on the four character classes accepts a code point exactly when every condition in it holds, so contradictory conditions accept nothing and the order or repetition of conditions does not matter. A validity check given a predicate answers true exactly when the text is valid for the target range and every complete code point satisfies the predicate, identically for the same text in UTF-8, UTF-16, UCS-2 and UCS-4, and for a single character given as 8, 16 or 32 bits.",
 ["inputs","configurations","programs"],"every chain of conditions, every code point, every text in every encoding, for each supported Unicode version",
 "Tests use a handful of combinations on short strings; there are 81 distinct predicates with unboundedly many spellings, times every code point and encoding.",
 [E,H,S,I],[("mask and value of a predicate","andIf, andIfNot, operator() in "+E),("per-character class mask","charToEncodingTypeMask in "+I),("predicate applied in scanners","is* functions in "+S)],["return value of the predicate and of is* with a predicate"])
p("P09","Character classes match the configured Unicode version",
 "For each supported version of Unicode (7 to 16), the library reports that version, and a code point is assigned exactly when that version of the Unicode Character Database assigns it (surrogates and private use excluded), private exactly in the three private use areas, control exactly for general category Cc, and white space exactly for the White_Space property. No value above U+10FFFF belongs to any class.",
 ["inputs","configurations"],"all code points (and 32-bit values beyond) times all ten configurations",
 "The existing data-driven test takes its expectations from a file generated in the same build and checks one overload; errors that agree with the generator, or in other overloads and classes, pass.",
 [BU],[("gap tables","isInTheGap* and isUnicodeAssigned in "+BU),("version string","supportedUnicodeVersion in "+BU)],["predicate results per code point","getUnicodeVersionSupported()"])
p("P10","Lower-casing follows the configured Unicode version for every code point",
 "For each supported version of Unicode (7 to 16) and outside the Turkic languages, lower-casing maps each code point to its simple lowercase mapping in that version of the Unicode Character Database, U+0130 to i, and every other value to itself. The mapping of a code point does not depend on its position or on its neighbours.",
 ["inputs","configurations"],"all code points (and 32-bit values beyond) in any surrounding text, times all ten configurations",
 "Tests check listed letters; letters missing from the list, and non-letters changed by a range that is too wide, are not looked at.",
 [BL,L],[("mapping tables","toLower, toLower2 in "+BL),("string loop","toLower overloads in "+L)],["toLower of single code points and of long texts"])
p("P11","Lower-casing respects the language and agrees across encodings",
 "Exactly the ten documented Turkic language codes (az aze azj azb kk kaz tt tat tr tur) make I lower to dotless i and dotted capital I to i; with any other language string, including prefixes, longer strings and other letter cases, and with none, the ordinary mapping applies, and the language changes nothing else. Lower-casing UTF-8 or UTF-16 text gives the same code points as lower-casing its UCS-4 form, keeps the number of code points, is idempotent, and gives an empty string for malformed text.",
 ["inputs","configurations"],"every language string, every text in every encoding, for each supported Unicode version",
 "Tests try the documented codes and a few others; the language argument is any string and the text any text.",
 [L,BL],[("language test","isTurkicLang in "+L),("Turkic mapping","turkicToLower in "+BL),("conversions around the mapping","toLower overloads in "+L)],["toLower with every short language string"])
p("P12","Splitting and joining are exact inverses",
 "Splitting a text at a delimiter character gives, in order, the maximal delimiter-free pieces, empty ones included: one more piece than there are delimiters, and no piece for an empty text; joining pieces puts exactly one delimiter between neighbours. Joining what was split restores the text, and splitting what was joined restores the pieces whenever no piece contains the delimiter and there is more than one piece or a non-empty one, for every character type and every character value, NUL included.",
 ["inputs"],"every text, list of pieces and delimiter, for every character type",
 "Tests split a few literals on one delimiter; the law is over all texts and piece lists.",
 [SJ],[("break list","split in "+SJ),("append loop","join in "+SJ)],["vector returned by split, string returned by join"])
p("P13","Trimming removes exactly the leading and trailing blanks",
 "Trimming removes from a text the longest prefix and the longest suffix made of the blanks in question (space; the given set; tab, line feed, carriage return and space; or those plus every space separator of Unicode) and changes nothing else: interior blanks and all other characters stay, and text of only blanks becomes empty. Trimming twice equals trimming once, and Unicode trimming of valid text gives the same code points in UTF-8, UTF-16 and UCS-4.",
 ["inputs"],"every text and every set of blanks, for every character type",
 "Tests trim a few strings; a blank that is missing or extra in one of three tables, or a code point corrupted by the UTF-8 path, needs all code points at both ends.",
 [TR],[("trim loops","trim templates in "+TR),("blank tables","trimWhiteSpace overloads in "+TR)],["the string after trimming"])
p("P14","Windows code page text converts byte for byte",
 "Converting CP1252 or CP1250 text to UTF-8 gives, for each byte, the character that code page defines for it, in order; if any byte is undefined in the code page the result is empty. Valid UTF-8 declared as Unicode comes back unchanged, and an unknown source encoding, empty text or a null pointer gives an empty string.",
 ["inputs"],"every NUL-terminated byte string and every source encoding value",
 "Tests check sample strings; each of the 2 x 128 upper bytes in every context is the space.",
 [T],[("code page tables","cp125280_9F, cp125080_FF in "+T)],["return value of toUtf8 with a source encoding"])
p("P15","Wide strings behave as UCS-4 where wchar_t has 32 bits",
 "With 32-bit wide characters, converting any Unicode text from UTF-8, UTF-16 or UCS-4 to a wide string and back gives the identical text, and a wide string is accepted for a target exactly when its code points are Unicode code points that fit the target. Conversions from malformed wide strings, or wide strings with a code point that has no form in the target, give an empty string, as do null pointers.",
 ["inputs"],"every wide string and every text of the other encodings",
 "Tests use a few literals; the bridge is a set of separately written overloads each with its own range argument.",
 [H],[("32-bit overloads","isUtf8(const wchar_t*) ... toWstring in "+H)],["return values of the wchar_t overloads"])
p("P16","Wide and TCHAR strings behave as UTF-16 where wchar_t has 16 bits",
 "With 16-bit wide characters, wide strings are checked and converted exactly as UTF-16 text, and TCHAR strings as wide strings in Unicode builds and as ASCII in multi-byte builds. Whatever the TCHAR or wide-string check accepts, the corresponding conversion reproduces in full; what it rejects converts to an empty string, and null pointers are empty.",
 ["inputs","configurations"],"every text of every encoding, in the wide, Unicode-TCHAR and multi-byte-TCHAR configurations",
 "No test build on this platform compiles this half of the interface at all.",
 [H],[("16-bit overloads","WCHAR_MAX < 0x10000 section of "+H),("TCHAR overloads","WIN32 sections of "+H)],["return values of the wchar_t and TCHAR overloads in a 16-bit wchar_t build"])
p("P17","No input causes undefined behaviour, a crash or a hang",
 "For every argument the interface admits (any code units, valid or not, any length and alignment, null pointers, out-of-range enumeration values and any 32-bit value as a character), every operation terminates normally and touches only memory it was given or owns: no read beyond the terminator or bound, no use of uninitialised or freed memory, no leak and no other undefined behaviour. No operation throws except when memory runs out.",
 ["inputs","configurations"],"every argument tuple of every public operation, for each supported Unicode version",
 "Unit tests run without instrumentation, where an over-read, an uninitialised read or a bad shift usually leaves no trace.",
 [S,D,I,E,T,L,SJ,TR,H,BU,BL],[("terminator tests before each further read","decodeUtf8 in "+D),("range tests before table access","rangeTypeToRangeFlag in "+S+", encodingTypeToEncodingFlag in "+E)],["sanitizer and valgrind reports"])
p("P18","Operations are pure: safe from any thread, in any order, at any time",
 "Every operation's result depends only on the values of its arguments: not on earlier or concurrent calls, on the thread, on the address or alignment of the text, on the locale, or on whether static initialisation is finished. Concurrent calls, also on the same source texts and predicates, are free of data races, and arguments passed for reading are never modified.",
 ["schedules","histories","inputs"],"every interleaving of calls from any number of threads and every prior call history",
 "Tests are single threaded with fixed order; a static buffer, cache or lazily filled table only shows under other schedules and histories.",
 [S,L,E,T,D,BU,BL],[("no mutable static state","constant tables in "+S+", "+E+", "+T),("constant-initialised version string",BU)],["results recorded per call under many schedules and histories","ThreadSanitizer reports"])
p("P19","Running out of memory is reported cleanly and harms nothing",
 "If any one allocation inside an operation fails, the operation throws std::bad_alloc (or gives its full result, if it can do without), leaks nothing, and leaves every argument as it was, including text to be trimmed in place. The next call, with memory available again, gives the same result as if nothing had failed.",
 ["fault_sequences","inputs"],"every operation that allocates, every input, and every position of the failing allocation in it",
 "No test injects allocation failures.",
 [S,L,T,SJ,TR],[("results built in local strings and returned by value","to* functions in "+S),("assignment to the victim last","trimWhiteSpace in "+TR)],["exceptions, live allocation counts, arguments and later results around each injected failure"])
p("P20","The test-data generator lists exactly the assigned code points or fails",
 "Given a Unicode data file, the generator writes an array of exactly the code points the file lists, in file order, without surrogate and private use entries, closed by the 0xFFFFFFFF end mark, also when the last line has no line end. When the arguments are wrong, a file cannot be opened, read or written, or a line of more than ten characters is not delimited data, it ends with a non-zero status instead of pretending success, and it always terminates.",
 ["inputs","fault_sequences"],"every data file and every failure of the input or output file",
 "It is a build-time tool that no test runs by itself; the unit tests only consume what it wrote for the shipped files.",
 [MK,SJ],[("line loop","process in "+MK),("open and write checks","main in "+MK)],["output file and exit status"])
p("P21","All forms of an operation agree",
 "For the same text, the pointer form, the string form and the forms with defaulted target or predicate of an operation give the same answer, as does the explicit-length form unless the text ends in an incomplete sequence, and a null pointer is treated as an empty text. Chaining conditions in one expression, through named variables or through the class factories, gives the same predicate, and predicates without contradictory conditions compare equal exactly when they consist of the same conditions, in any order.",
 ["inputs","programs"],"every text without NULs and every documented overload",
 "Each overload is tested with its own literals; nothing compares them on the same arbitrary text.",
 [H,S,E],[("forwarding overloads","inline functions in "+H+" and string overloads in "+S),("comparison","operator== in "+E)],["return values of all overloads on the same text"])
p("P22","Work grows in proportion to the length of the text",
 "Every operation on a text of n code units (splitting, joining and trimming included) does an amount of work and uses an amount of memory at most proportional to n, for every shape of text. In particular no arrangement of blanks, delimiters or malformed sequences makes it quadratic.",
 ["inputs"],"every text length and every shape of text",
 "Tests use short strings, where quadratic and linear work look alike.",
 [S,L,SJ,TR],[("single pass loops","to*, is*, unicodeLength in "+S),("erase once","trim in "+TR)],["instructions executed and bytes allocated at doubling lengths"])
p("P23","Any program can use the interface, however it and the library are built",
 "The installed headers each compile on their own, in any order and from several source files of one program, with every supported compiler and C++ standard from C++11 on, and such a program links with the library. Every operation gives the same results whatever compiler, standard, optimisation level, NDEBUG setting or signedness of plain char the program and the library are built with.",
 ["programs","configurations","inputs"],"every program that includes the installed headers, every way to build it and the library, and every argument",
 "The tests are one build of one program: C++11, one compiler, each header included from a single file, after others, with signed char.",
 [H,SJ,TR,S,D],[("inline functions and templates","interface/*.hxx"),("bytes handled as unsigned char","sequenceSizeCharStarts in "+S+", decodeUtf8 in "+D)],["compiler and linker verdicts on programs of several shapes","hashes of all results of every operation in each program"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
