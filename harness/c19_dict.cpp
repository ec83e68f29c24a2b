// C19: attributes and enum elements behave as insertion-ordered dictionaries.
#include <common/registry.hpp>
using namespace reg;
//                     STOP NS CLASS ENUM ELEM METH PROP CTOR BASE ATTR LAZY QUERY ELSE
static Mix const mix{{ 0,   2, 2,    3,   9,   1,   0,   0,   0,   9,   1,   8,    1 },
                     { 0,   0, 1,    3,   9,   1,   0,   0,   0,   9,   1,   8,    1 },
                     { 1, 12, 0, 0, 1, 0, 0, 55, 0 }};
LAW(dictionaries, pbt::ISOLATED, 6000, 300000, "random attributes on namespaces, classes (also nested, re-opened and lazily defined) and enums, and random enum elements: 18 names (prefixes of each other, case variants, embedded zero, long, empty), 7 kinds of values, with overwrites; interleaved lookups by exact and nearly right names, by position, enumeration with stops; non-trivial: something was overwritten")
{ history(c, mix, 70, [](World &w) { return w.overwrites >= 1; }); }
