// C10: deep and wide hierarchies.
#include <common/hier_large.hpp>
using namespace large;
namespace {
LAW(large_hierarchies, pbt::ISOLATED, 400, 8000, "fresh process: a chain of 24 classes with a further base at every level and a class with 24 bases, opened in several orders, some classes and base relations left out; casts between any two of them through any base of the object against dynamic_cast, and the relations against the model; non-trivial: more than 20 casts succeed")
{
    Model m(c); m.build((int)c.draw(2)); int good = 0; auto const &o = ops();
    do {
        int d = c.chance(1, 3) ? WIDE : (int)c.draw(TOTAL), f = d; if (!c.chance(1, 4)) f = d == WIDE ? DEPTH + (int)c.draw(WIDTH) : d < DEPTH ? (int)c.draw((uint64_t)d + 1) : d;
        void *obj = o[(size_t)d].make(); struct Del { Op const &k; void *p; ~Del() { k.kill(p); } } del{o[(size_t)d], obj}; void const *from = o[(size_t)d].up[f](obj);
        for (int k = 0; k < 4; ++k) {
            int t = c.chance(1, 4) ? (int)c.draw(TOTAL) : d == WIDE ? DEPTH + (int)c.draw(WIDTH + 1) : (int)c.draw((uint64_t)d + 1);
            bool ok = m.reg[(size_t)d] && m.reg[(size_t)t] && m.reach(d, t); void const *want = ok ? o[(size_t)f].dyn[t](from) : nullptr, *got = o[(size_t)f].cast[t](from);
            c.check(!ok || want, "harness: dynamic_cast fails");
            c.check(got == want, "meta_cast of a %s seen as %s to %s gives object+%ld%s instead of object+%ld%s", o[(size_t)d].name.c_str(), o[(size_t)f].name.c_str(), o[(size_t)t].name.c_str(), got ? (long)((char const *)got - (char const *)obj) : 0, got ? "" : " (null)", want ? (long)((char const *)want - (char const *)obj) : 0, want ? "" : " (null)");
            good += want && d != t;
        }
    } while (c.more(60));
    for (int i = 0; i < TOTAL; ++i) {
        auto *k = m.cls(i); c.check(!!k == m.reg[(size_t)i], "%s is %sregistered", o[(size_t)i].name.c_str(), k ? "" : "not "); if (!k) continue;
        auto &b = m.bases[(size_t)i], &e = m.derived[(size_t)i];
        c.check(k->baseClassCount() == b.size() && k->derivedClassCount() == e.size(), "%s has %zu bases and %zu derived classes instead of %zu and %zu", o[(size_t)i].name.c_str(), k->baseClassCount(), k->derivedClassCount(), b.size(), e.size());
        for (size_t x = 0; x < b.size(); ++x) c.check(k->baseClass(x) == m.cls(b[x]), "base %zu of %s is another class", x, o[(size_t)i].name.c_str());
        for (size_t x = 0; x < e.size(); ++x) c.check(k->derivedClass(x) == m.cls(e[x]), "derived class %zu of %s is another class", x, o[(size_t)i].name.c_str());
        c.check(!k->baseClass(b.size()) && !k->derivedClass(e.size()), "a class behind the last of %s", o[(size_t)i].name.c_str());
        for (int x = 0; x < TOTAL; ++x) if (m.reg[(size_t)x] && (i + x) % 3 == 0) c.check(k->inheritedFrom(m.cls(x)) == m.reach(i, x), "%s is %sinherited from %s", o[(size_t)i].name.c_str(), m.reach(i, x) ? "not " : "", o[(size_t)x].name.c_str());
    }
    c.note("%d casts succeed", good); if (good > 20) c.nontrivial();
}
} // namespace
