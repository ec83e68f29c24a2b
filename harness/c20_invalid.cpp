// C20: invalid definitions are rejected and leave the registry unchanged.
#include <common/registry.hpp>
using namespace reg;
//                     STOP NS CLASS ENUM ELEM METH PROP CTOR BASE ATTR LAZY QUERY ELSE
static Mix const mix{{ 0,   4, 14,   2,   1,   2,   1,   0,   0,   3,   1,   5,    1 },
                     { 0,   0, 6,    2,   1,   3,   1,   1,   8,   3,   2,   5,    1 },
                     { 6, 2, 6, 1, 1, 1, 2, 5, 0 }};
LAW(refusals, pbt::ISOLATED, 6000, 300000, "definition blocks which keep declaring 12 classes under colliding names and places (also nested in each other and by type name) and naming registered and unregistered bases, alone and in groups; a refused declaration may change nothing, declarations around it continue where they were; classes are looked up by type, type id and type name after every refusal; non-trivial: at least one refusal")
{ history(c, mix, 60, [](World &w) { return w.refused >= 1; }); }
