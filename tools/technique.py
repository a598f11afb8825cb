REF="Held on every execution observed, not proved: "
T={
"P01":["runtime monitor comparing each verdict with a reference model, on exhaustive short, swept, random and coverage-guided texts (libFuzzer under ASan+UBSan)",
  REF+"every byte sequence up to 3 bytes and every code point exhaustively, longer text by sweeps, seeded random generation and fuzzing. Trusts the reference model."],
"P02":["cross-monitor of checker and converter on the same text, enumerated, random and fuzzed",REF+"the relation between the two is checked, with the model only deciding what the text's complete code points are."],
"P03":["runtime monitor comparing each converted string with a reference model, on all code points, enumerated, random and fuzzed texts",REF+"all code points and short sequences are swept, longer ones sampled."],
"P04":["trace monitor over chains of conversions: every intermediate string is checked",REF+"all code points, random and fuzzed texts, random chains up to 12 hops."],
"P05":["step monitor of the decoder's position and value against a reference decoder, from every position of enumerated, random and fuzzed byte strings",REF+"all sequences of up to 3 bytes and all shapes of 4 to 6 byte sequences."],
"P06":["guard-page monitor (inaccessible memory at the bound) plus comparison of answers under different surroundings",REF+"an over-read faults at once in the optimised build; bounds up to a few hundred units, sampled beyond."],
"P07":["runtime monitor comparing counts in all forms with a reference model",REF+"enumerated, random and fuzzed texts. Two known findings, pinned by the test suite."],
"P08":["runtime monitor: independent evaluation of the conjunction for every predicate and code point, and of text checks in all encodings, for ten Unicode versions",REF+"all 81 predicates over all code points, random spellings and texts."],
"P09":["exhaustive sweep of all code points in all ten configurations against tables derived from the Unicode Character Database",REF+"complete over code points; the thorough tier sweeps all 32-bit values for two versions. Trusts the table."],
"P10":["exhaustive sweep of all code points in all ten configurations against tables derived from the Unicode Character Database, alone and in texts",REF+"complete for single code points, sampled for neighbours. Known findings pinned by the test suite."],
"P11":["runtime monitor: every short language string, and cross-encoding agreement, length, idempotence on enumerated, random and fuzzed texts",REF+"all language strings up to 3 bytes, sampled longer."],
"P12":["runtime monitor of the split/join laws and of an independent splitter on enumerated, random and fuzzed texts in four character types",REF+"small alphabets exhaustively, the rest sampled."],
"P13":["runtime monitor comparing with an independent trimmer on all code points, enumerated, random and fuzzed texts",REF+"all code points at both ends; the rest sampled."],
"P14":["runtime monitor comparing with code page tables derived from an independent implementation",REF+"all bytes and pairs of bytes, random and fuzzed strings."],
"P15":["runtime monitor comparing the wchar_t overloads with a reference model (32-bit wchar_t)",REF+"all code points, random and fuzzed texts."],
"P16":["runtime monitor comparing the wchar_t and TCHAR overloads with a reference model in three 16-bit wchar_t builds",REF+"built with -fshort-wchar and the WIN32 macros on this platform, not with a Windows compiler."],
"P17":["AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer and valgrind memcheck under hostile and coverage-guided arguments, with crash and no-progress detection",REF+"what the instrumentation can see on the executions run, all ten versions."],
"P18":["event-log comparison across orders, threads, addresses, locales and phases of a process, plus ThreadSanitizer and read-only argument pages",REF+"schedules are sampled, not enumerated."],
"P19":["allocation-fault injection at every allocation of each operation, with monitors on exceptions, live memory, arguments and later results","Every failing position is enumerated for each case run; cases are sampled."],
"P20":["black-box monitor of the real tool on generated data files and injected file failures, also under ASan+UBSan",REF+"generated files and the failures a sandbox can inject."],
"P21":["cross-monitor of all forms of an operation on the same text",REF+"enumerated, random and fuzzed texts."],
"P22":["work monitor: counts executed branches, copied bytes and allocated bytes of instrumented code at growing lengths",REF+"growth is judged from lengths up to a few hundred thousand units on a fixed and a random family of shapes."],
"P23":["event-log comparison of twelve programs that differ in compiler, C++ standard, optimisation, NDEBUG, signedness of char, order of headers and build of the library; compile and link of headers alone and from several files",REF+"the configurations are the ones gcc 13 and clang 18 on x86-64 Linux offer; what is the same everywhere is not judged here but by the other properties."],
}
