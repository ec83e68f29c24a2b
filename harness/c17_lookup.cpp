// C17: methods and properties are looked up in the class, then its bases in order.
#include <c17_hier.hpp>
using namespace hier;
namespace {
struct Entry { int kind, name, k; size_t cls; std::string key; };        // key: full signature of a method, name of a property
struct Run: Registrar {
    size_t hi; std::vector<std::vector<Entry>> own; int inherited = 0, hidden = 0; bool few; std::pair<size_t, std::string> asked;
    Run(pbt::Ctx &x, size_t i): Registrar(x, all()[i]), hi(i), own(all()[i].cls.size())
    {
        few = c.chance(2, 3);
        items = [this](size_t) { std::vector<int> r; while (c.chance(3, 5) && r.size() < 6) r.push_back(draw_item()); return r; };
        declared = [this](size_t k, std::vector<int> const &b) { for (int i : b) { Entry e = entry(k, i); bool seen = false; for (auto &o : own[k]) seen |= o.kind == e.kind && o.key == e.key; if (!seen) own[k].push_back(e); } };
    }
    int draw_item() { bool p = c.chance(1, 3); return item(p, (int)c.draw(few ? 2 : NAMES), p ? (int)c.draw(PRS) : c.chance(1, 4) ? (int)c.draw(2) : 2 + (int)c.draw(4)); }
    std::string sig(size_t k, int name, int f) const
    {
        auto const &cl = lookups()[hi].of[k].cls; std::string n = item_name(name);
        switch (f) { case 0: return n + "(" + cl + ", int)"; case 1: return n + "(const " + cl + ")"; case 2: return n + "()"; case 5: return n + "(double)"; default: return n + "(int)"; }
    }
    Entry entry(size_t k, int i) const { int kind = i / 100, name = i / 10 % 10, f = i % 10; return {kind, name, f, k, kind ? item_name(name) : sig(k, name, f)}; }
    Entry const *find(size_t k, int kind, std::string const &q, int &depth) const
    {
        if (q.empty()) return nullptr;
        for (auto &e : own[k]) if (e.kind == kind && (e.key == q || (!kind && q == item_name(e.name)))) return &e;
        for (int b : m.edges[k]) if (auto *e = find((size_t)b, kind, q, depth)) { ++depth; return e; }
        return nullptr;
    }
    int count(size_t k, int kind, std::string const &q) const { int n = 0; for (auto &e : own[k]) n += e.kind == kind && (e.key == q || (!kind && q == item_name(e.name))); for (int b : m.edges[k]) n += count((size_t)b, kind, q); return n; }
    int want(Entry const &e) const { return lookups()[hi].of[0].hier * 1000 + (int)e.cls * 100 + (e.kind ? 50 : 0) + e.k; }
    void judge(size_t k, int kind, std::string const &q, rtti::MetaItem const *got, char const *how)
    {
        int depth = 0; auto const *e = find(k, kind, q, depth);
        if (!e) { c.check(!got, "%s %s of %s found %s: %s", kind ? "property" : "method", q.c_str(), h.cls[k].name.c_str(), how, got ? got->qualifiedName().c_str() : ""); return; }
        c.check(got != nullptr, "%s %s of %s is not found %s (it is in %s)", kind ? "property" : "method", q.c_str(), h.cls[k].name.c_str(), how, h.cls[e->cls].name.c_str());
        c.check(got->owner() == h.cls[e->cls].find() && got->name() == e->key, "%s %s of %s found %s is %s instead of %s of %s", kind ? "property" : "method", q.c_str(), h.cls[k].name.c_str(), how, got->qualifiedName().c_str(), e->key.c_str(), h.cls[e->cls].name.c_str());
        if (depth) { ++inherited; c.label("inherited"); } if (count(k, kind, q) > 1) { ++hidden; c.label("hiding others"); }
        // what is found really is what was declared there
        size_t o = 0; void *obj = nullptr; bool member = kind ? e->k == 2 : e->k < 2;
        if (member) { for (o = k; o < n; ++o) if (!h.cls[o].abstract && h.up[o][e->cls]) break; if (o == n) return; obj = h.cls[o].create(want(*e)); }
        struct Del { Class const *k; void *p; ~Del() { if (p) k->destroy(p); } } del{obj ? &h.cls[o] : nullptr, obj};
        void *sub = obj ? const_cast<void *>(h.up[o][e->cls](obj)) : nullptr; if (member && kind && e->cls != o) { auto tag = 0; (void)tag; }
        auto const &l = lookups()[hi].of[e->cls]; int r = kind ? l.get(static_cast<rtti::MetaProperty const *>(got), e->k, sub) : l.call(static_cast<rtti::MetaMethod const *>(got), e->k, sub);
        int w = kind && e->k == 2 ? (e->cls == o ? want(*e) : (int)e->cls) : want(*e);
        c.check(r == w, "%s %s of %s gives %d instead of %d", kind ? "property" : "method", q.c_str(), h.cls[k].name.c_str(), r, w);
    }
    std::string question(int kind)
    {
        int name = (int)c.draw(few ? 3 : NAMES); std::string q = item_name(name);
        if (!kind && c.chance(2, 3)) { q = sig(c.draw(n), name, (int)c.draw(FNS)); }
        switch (c.weighted({14, 1, 1, 1, 1})) { case 1: q += "x"; break; case 2: q.pop_back(); break; case 3: q = ""; break; case 4: q = "m("; break; default: break; }
        return q;
    }
    void ask()
    {
        size_t k = c.draw(n); if (!m.reg[k]) return;
        if (c.chance(1, 6)) { by_variant(); return; }
        auto *M = h.cls[k].find(); int kind = c.chance(1, 3); 
        if (!kind && c.chance(1, 4)) {
            size_t t = c.draw(n); int name = (int)c.draw(few ? 3 : NAMES), f = (int)c.draw(FNS); c.note("getMethod<...>(%s) of %zu, function %d of class %zu", item_name(name), k, f, t);
            judge(k, 0, sig(t, name, f), lookups()[hi].of[t].typed(M, item_name(name), f), "by parameter types"); return;
        }
        auto q = question(kind);
        if (asked.second.size() && c.chance(1, 3)) { k = asked.first / 2; kind = (int)(asked.first & 1); q = asked.second; }     // again
        M = h.cls[k].find(); asked = {k * 2 + (size_t)kind, q}; c.note("%s %s of %zu", kind ? "property" : "method", q.c_str(), k);
        judge(k, kind, q, kind ? (rtti::MetaItem const *)M->getProperty(q) : M->getMethod(q), "by name");
    }
    void again()
    {
        if (asked.second.empty()) return;
        size_t k = asked.first / 2; int kind = (int)(asked.first & 1); auto &q = asked.second; auto *M = h.cls[k].find(); c.note("%s %s of %zu again", kind ? "property" : "method", q.c_str(), k);
        judge(k, kind, q, kind ? (rtti::MetaItem const *)M->getProperty(q) : M->getMethod(q), "again");
    }
    // by name on a variant holding an object
    void by_variant()
    {
        size_t d = c.draw(n); if (!m.reg[d] || h.cls[d].abstract) return;
        int kind = c.chance(1, 3); auto q = question(kind); int form = (int)c.draw(3), depth = 0; auto const *e = find(d, kind, q, depth);
        if (e && (kind ? e->k != 2 : e->k >= 2)) { c.excluded("static members are not called on instances"); return; }
        if (e && (form == 2 && !kind && e->k == 0)) form = 0;
        if (e && (!h.up[d][e->cls] || m.ambiguous(d, e->cls))) { c.excluded("ambiguous base"); return; }
        void *obj = h.cls[d].create(7777); struct Del { Class const &k; void *p; ~Del() { k.destroy(p); } } del{h.cls[d], obj};
        c.note("%s %s on an object of %zu", kind ? "property" : "method", q.c_str(), d);
        int r = -1, w = -1; if (e) w = kind ? (e->cls == d ? 7777 : (int)e->cls) : want(*e);
        try { auto v = lookups()[hi].of[d].make(obj, form); if (kind) r = v.get_property(q).to<int>(); else if (!e || e->k == 1) r = v.invoke(q).to<int>(); else r = v.invoke(q, 1).to<int>(); }
        catch (rtti::bad_variant_cast const &) { r = -2; } catch (rtti::runtime_error const &) { r = -1; }
        c.check(r == w, "%s %s on an object of %s gives %d instead of %d", kind ? "property" : "method", q.c_str(), h.cls[d].name.c_str(), r, w);
        if (e) { c.label("by variant"); if (depth) ++inherited; }
    }
    void contents()             // nothing a derived class declares changes its bases, and the other way round
    {
        for (size_t k = 0; k < n; ++k) if (m.reg[k]) {
            auto *M = h.cls[k].find(); size_t nm = 0, np = 0; M->forceDeferredDefine();
            for (auto &e : own[k]) {
                rtti::MetaItem const *i = e.kind ? (rtti::MetaItem const *)M->getProperty(np++) : M->getMethod(nm++);
                c.check(i && i->name() == e.key && i->owner() == M, "%s number %zu of %s is %s instead of %s", e.kind ? "property" : "method", (e.kind ? np : nm) - 1, h.cls[k].name.c_str(), i ? i->qualifiedName().c_str() : "null", e.key.c_str());
            }
            c.check(M->methodCount() == nm && M->propertyCount() == np, "%s has %zu methods and %zu properties instead of %zu and %zu", h.cls[k].name.c_str(), M->methodCount(), M->propertyCount(), nm, np);
        }
    }
};
LAW(lookup_order, pbt::ISOLATED, 5000, 400000, "fresh process: one of the generated hierarchies (single, multiple, virtual inheritance, 3..7 classes); methods (6 functions per class, two with the same signature) and properties under few names declared in random classes, order, pieces and laziness; lookups by bare name, full signature, parameter types and through variants in between; then everything again; non-trivial: an inherited item was found and one hid others")
{
    Run r(c, c.draw(all().size())); r.open_all(c.chance(1, 5) ? 6 : 0);
    r.favourite = [&r, &c] { return r.asked.second.empty() ? c.draw(r.n) : r.asked.first / 2; };
    r.declare_all([&] { if (c.chance(1, 2)) r.again(); while (c.chance(1, 2)) r.ask(); });
    do r.ask(); while (c.more(16));
    for (size_t k = 0; k < r.n; ++k) if (r.m.reg[k]) for (int name = 0; name < (r.few ? 2 : NAMES); ++name) {
        auto *M = r.h.cls[k].find(); std::string q = item_name(name); r.judge(k, 1, q, M->getProperty(q), "by name"); r.judge(k, 0, q, M->getMethod(q), "by name");
        for (size_t t = 0; t < r.n; ++t) for (int f = 0; f < FNS; ++f) { if (f > 1 && t) continue; q = r.sig(t, name, f); r.judge(k, 0, q, M->getMethod(q), "by signature"); }
    }
    r.contents();
    if (r.inherited && r.hidden) c.nontrivial();
}
} // namespace
