// C16: the registry contains exactly what was declared, once, in declaration order.
#include <common/registry.hpp>
using namespace reg;
//                     STOP NS CLASS ENUM ELEM METH PROP CTOR BASE ATTR LAZY QUERY ELSE
static Mix const mix{{ 0,   6, 7,    4,   2,   6,   5,   0,   0,   1,   1,   8,    1 },
                     { 0,   0, 2,    3,   2,   7,   5,   3,   2,   1,   1,   8,    1 },
                     { 12, 1, 2, 1, 1, 4, 3, 6, 0 }};
LAW(registry, pbt::ISOLATED, 5000, 300000, "definition blocks of random nesting (namespaces up to 3 deep, 12 classes, nested classes, methods with equal names and equal signatures, properties, enums, constructors), with repetitions, re-opening, other names under the same key, abandoned chains, some deferred definitions; interleaved queries by name, index, enumeration, calls through the found items; at the end everything is compared twice; non-trivial: at least 8 declarations and one repeated")
{ history(c, mix, 60, [](World &w) { return w.repeats >= 1 && w.all.size() >= 9; }); }
