// C18: deferred definitions run exactly once, on demand, and are invisible otherwise.
#include <common/registry.hpp>
using namespace reg;
//                     STOP NS CLASS ENUM ELEM METH PROP CTOR BASE ATTR LAZY QUERY ELSE
static Mix const mix{{ 0,   6, 6,    2,   1,   3,   2,   0,   0,   1,   7,   8,    3 },
                     { 0,   0, 2,    1,   1,   4,   2,   1,   3,   1,   7,   8,    3 },
                     { 8, 2, 3, 2, 2, 1, 3, 3, 0 }};
static Mix const late{{ 0,  6, 6,    2,   1,   3,   2,   0,   0,   1,   7,   0,    3 },
                     { 0,   0, 2,    1,   1,   4,   2,   1,   3,   1,   7,   0,    3 },
                     { 8, 2, 3, 2, 2, 1, 3, 3, 0 }};
LAW(deferred, pbt::ISOLATED, 5000, 300000, "definition blocks in which every other container is defined lazily, in pieces or repeatedly; the content of a deferred definition is drawn when it runs: it declares (lazily too), queries itself and others, forces, and declares elsewhere; every execution has to be caused by a call that may observe the content, every call that can observe it has to cause it; non-trivial: a deferred definition ran and another was refused, ran within one, or was queried from within")
{ history(c, mix, 50, [](World &w) { return w.ran >= 1 && (w.nested || w.refused || w.reentrant); }); }
LAW(first_query, pbt::ISOLATED, 2500, 150000, "as deferred, but nothing is queried until everything has been declared; then single queries in random order; non-trivial: at least two deferred definitions ran")
{
    World w(c, late); w.budget = 30;
    { auto g = global_define(); ns_body<0>(w, static_cast<N0>(g), w.root); w.abandon = false; }
    do w.query(); while (c.more(8));
    w.everything(); if (w.ran >= 2) c.nontrivial(); if (w.nested) c.label("deferred within deferred"); if (w.refused) c.label("refusals");
}
