// P23: the table of operations as one particular program would compile it: this standard, compiler, optimisation, sign of
// char and order of the installed headers (P23_ORDER). P23_NAME is the function that hands the table to the driver.
#if P23_ORDER == 0
#include <ansak/string.hxx>
#include <ansak/string_splitjoin.hxx>
#include <ansak/string_trim.hxx>
#elif P23_ORDER == 1
#include <ansak/string_trim.hxx>
#include <ansak/string_splitjoin.hxx>
#include <ansak/string.hxx>
#elif P23_ORDER == 2
#include <ansak/string_splitjoin.hxx>
#include <ansak/string_trim.hxx>
#elif P23_ORDER == 3
#include <ansak/string_splitjoin.hxx>
#include <ansak/string.hxx>
#include <ansak/string_trim.hxx>
#elif P23_ORDER == 4
#include <ansak/string.hxx>
#include <ansak/string_trim.hxx>
#include <ansak/string_splitjoin.hxx>
#else
#include <ansak/string_trim.hxx>
#include <ansak/string.hxx>
#include <ansak/string_splitjoin.hxx>
#endif
#define API_PUBLIC_ONLY
#define API_LINKAGE static
#include "ops.hxx"
extern "C" const void* P23_NAME() { return &api::ops(); }
