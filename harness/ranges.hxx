// ranges.hxx -- the public enumerations in the order of the model's
#pragma once
#include "string.hxx"
#include "model.hxx"
static const ansak::RangeType kR[] = { ansak::kAscii, ansak::kUtf8, ansak::kUcs2, ansak::kUtf16, ansak::kUcs4, ansak::kUnicode };
static const char* const kRName[] = { "kAscii", "kUtf8", "kUcs2", "kUtf16", "kUcs4", "kUnicode" };
static const ansak::EncodingType kE[] = { ansak::kIsAssigned, ansak::kIsPrivate, ansak::kIsControl, ansak::kIsWhitespace };
static const int kBadRanges[] = { -1, ansak::kFirstInvalidRange, ansak::kFirstInvalidRange + 1, 64, 1000, -2, 0x7FFFFFFF, int(0x80000000) };
inline const char* vname(bool b) { return b ? "true" : "false"; }
