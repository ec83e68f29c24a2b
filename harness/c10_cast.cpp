// C10: meta_cast, inheritedFrom, base and derived lists over generated hierarchies registered in random ways.
#include <c10_hier.hpp>
#include <algorithm>
using namespace hier;
namespace {
struct Run: Registrar {
    size_t hi;
    Run(pbt::Ctx &x, size_t i): Registrar(x, all()[i]), hi(i) {}
    void cast(size_t d, size_t f, size_t t, int tag)
    {
        auto const &D = h.cls[d]; if (D.abstract || !h.up[d][f]) return;
        void *obj = D.create(tag); auto *from = const_cast<void *>(h.up[d][f](obj));
        struct Del { Class const &k; void *p; ~Del() { k.destroy(p); } } del{D, obj};
        auto const &op = casts()[hi].op[f][t];
        void const *want;
        if (!D.info) want = f == t ? from : nullptr;
        else {
            if (m.ambiguous(d, t)) { c.excluded("ambiguous base"); return; }
            want = m.reg[d] && m.reg[t] && m.reach(d, t) ? op.dyn(from) : nullptr;
            if (m.reg[d] && m.reg[t] && m.reach(d, t)) c.check(want != nullptr, "harness: dynamic_cast fails");
        }
        for (int i = 0; i < 4; ++i) {
            void const *got = op.mc[i](from);
            c.check(got == want, "meta_cast (form %d) of a %s seen as %s to %s gives object+%ld%s, dynamic_cast gives object+%ld%s", i, D.name.c_str(), h.cls[f].name.c_str(), h.cls[t].name.c_str(),
                    got ? (long)((char const *)got - (char const *)obj) : 0, got ? "" : " (null)", want ? (long)((char const *)want - (char const *)obj) : 0, want ? "" : " (null)");
        }
        c.label(want ? (want == obj ? "same address" : "adjusted address") : "null");
        if (want && t != f && D.info) c.nontrivial();
    }
    void relations(size_t a)
    {
        auto *A = h.cls[a].find();
        c.check((A != nullptr) == m.reg[a], "%s is %sregistered", h.cls[a].name.c_str(), A ? "" : "not ");
        if (!A) return;
        for (size_t b = 0; b < n; ++b) {
            auto *B = h.cls[b].find(); bool want = m.reg[b] && m.reach(a, b);
            c.check(A->inheritedFrom(B) == want, "%s inheritedFrom %s is %d", h.cls[a].name.c_str(), h.cls[b].name.c_str(), !want);
        }
        c.check(!A->inheritedFrom(nullptr), "inheritedFrom(null)");
        c.check(A->baseClassCount() == m.edges[a].size(), "%s has %zu bases, declared %zu", h.cls[a].name.c_str(), A->baseClassCount(), m.edges[a].size());
        for (size_t i = 0; i < m.edges[a].size(); ++i) c.check(A->baseClass(i) == h.cls[(size_t)m.edges[a][i]].find(), "base %zu of %s is another class", i, h.cls[a].name.c_str());
        c.check(!A->baseClass(m.edges[a].size()) && !A->baseClass(~(size_t)0), "a base beyond the last one of %s", h.cls[a].name.c_str());
        bool known = true;         // a deferred definition elsewhere may not have run yet
        for (size_t d = 0; d < n; ++d) if (lazy_[d]) for (int e : m.edges[d]) known &= (size_t)e != a;
        if (!known) return;
        c.check(A->derivedClassCount() == derived[a].size(), "%s has %zu derived classes, declared %zu", h.cls[a].name.c_str(), A->derivedClassCount(), derived[a].size());
        for (size_t i = 0; i < derived[a].size(); ++i) c.check(A->derivedClass(i) == h.cls[(size_t)derived[a][i]].find(), "derived class %zu of %s is another class", i, h.cls[a].name.c_str());
        c.check(!A->derivedClass(derived[a].size()), "a derived class beyond the last one of %s", h.cls[a].name.c_str());
    }
    void derived_sets()
    {
        for (size_t a = 0; a < n; ++a) if (m.reg[a]) h.cls[a].find()->forceDeferredDefine();
        for (size_t a = 0; a < n; ++a) {
            if (!m.reg[a]) continue;
            auto *A = h.cls[a].find(); std::vector<rtti::MetaClass const *> got, want;
            for (size_t i = 0; i < A->derivedClassCount(); ++i) got.push_back(A->derivedClass(i));
            for (size_t d = 0; d < n; ++d) for (int e : m.edges[d]) if ((size_t)e == a) want.push_back(h.cls[d].find());
            std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
            c.check(got == want, "the derived classes of %s are not the declared ones", h.cls[a].name.c_str());
        }
    }
};
void run(pbt::Ctx &c, bool unregistered)
{
    Run r(c, c.draw(all().size())); auto const &h = r.h; size_t n = r.n;
    r.open_all(unregistered ? 4 : 0);
    auto ask = [&] {
        switch (c.weighted({6, 2})) {
        case 0: { size_t d = c.draw(n), f = d, t = c.draw(n); for (int i = 0; i < 3 && (f == d || !h.up[d][f]); ++i) f = c.draw(n); c.note("cast: object %zu, seen as %zu, to %zu", d, f, t); r.cast(d, f, t, 7); break; }
        default: { size_t a = c.draw(n); c.note("relations of %zu", a); r.relations(a); break; }
        }
    };
    r.declare_all([&] { while (c.chance(1, 3)) ask(); });
    do ask(); while (c.more(10));
    if (c.chance(1, 2)) {
        c.note("everything");
        for (size_t d = 0; d < n; ++d) for (size_t f = 0; f < n; ++f) for (size_t t = 0; t < n; ++t) r.cast(d, f, t, 7);
        for (size_t a = 0; a < n; ++a) r.relations(a);
    }
    r.derived_sets();
    for (size_t f = 0; f < n; ++f) for (size_t t = 0; t < n; ++t) { auto const &op = casts()[r.hi].op[f][t]; c.check(!op.mc[0](nullptr) && !op.mc[1](nullptr), "the cast of a null pointer is not null"); }
}
LAW(casts, pbt::ISOLATED, 8000, 250000, "fresh process: one of the generated hierarchies (single, multiple, virtual inheritance, 3..7 classes), classes opened in random order, bases declared in random order, split, repeated, partly, eagerly or deferred, with casts and relation queries in between; pointer and reference casts against dynamic_cast, relations against the model; non-trivial: a successful cast to another class")
{ run(c, false); }
LAW(partly_registered, pbt::ISOLATED, 4000, 100000, "as casts, but every class stays unregistered with probability 1/4")
{ run(c, true); }
} // namespace
