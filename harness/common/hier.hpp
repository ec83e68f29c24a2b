// Generated class hierarchies, type-erased. The generated code specialises Info<C> for every class.
#pragma once
#include <pbt.hpp>
#include <rtti/metadefine.h>
#include <rtti/variant.h>
#include <functional>
#include <memory>
#include <string>
#include <type_traits>
#include <vector>

namespace hier {
template<class...> struct L {};
template<class T> struct Info;

struct Decl { std::vector<int> bases; std::vector<int> items; };      // what one definition block of a class declares (-1 among bases: all of them in one call)
template<class C, class D> void declare_items(D &, std::vector<int> const &);        // provided by the property's harness
template<class C, class D, class... B> void declare_bases(D &d, std::vector<int> const &b, L<B...>)
{
    for (int k : b) {
        if (k == -1) { if constexpr (sizeof...(B) > 0) d.template _base<B...>(); }
        else { int i = 0; (void)i; ((i++ == k ? (void)d.template _base<B>() : (void)0), ...); }
    }
}
template<class C, class D> void declare(D &d, Decl const &x) { declare_bases<C>(d, x.bases, typename Info<C>::bases{}); declare_items<C>(d, x.items); }

struct Class {
    std::string name; bool info, abstract, copyable, movable; std::vector<int> bases;
    void *(*create)(int tag); void (*destroy)(void *);
    void (*open)(char const *name);                                    // `_class<C>(name)` alone
    void (*eager)(char const *name, Decl const &); void (*lazy)(char const *name, Decl const &);
    rtti::MetaType_ID (*id)();
    rtti::MetaClass const *(*find)();
};
struct Hier { std::string name; std::vector<Class> cls; std::vector<std::vector<void const *(*)(void const *)>> up; };     // up[d][b]: D const* -> B const*, null if B is not an unambiguous base
inline std::vector<Hier> &all() { static std::vector<Hier> h; return h; }

template<class C, class... B> std::vector<int> base_indexes(L<B...>) { return {Info<B>::index...}; }
template<class D, class B> constexpr void const *(*conv())(void const *)
{
    if constexpr (std::is_convertible_v<D *, B *>) return [](void const *p) -> void const * { return static_cast<B const *>(static_cast<D const *>(p)); };
    else return nullptr;
}
template<class C> Class make_class(std::string const &h)
{
    Class c; c.name = h + "_C" + std::to_string(Info<C>::index); c.info = Info<C>::info; c.abstract = std::is_abstract_v<C>;
    c.copyable = std::is_copy_constructible_v<C>; c.movable = std::is_move_constructible_v<C>; c.bases = base_indexes<C>(typename Info<C>::bases{});
    c.create = [](int tag) -> void * { if constexpr (!std::is_abstract_v<C>) { auto *p = new C(); Info<C>::tag(*p) = tag; return p; } else { (void)tag; return nullptr; } };
    c.destroy = [](void *p) { if constexpr (!std::is_abstract_v<C>) delete static_cast<C *>(p); else (void)p; };
    c.open = [](char const *n) { rtti::global_define().template _class<C>(n); };
    c.eager = [](char const *n, Decl const &d) { auto g = rtti::global_define(); auto x = g.template _class<C>(n); declare<C>(x, d); };
    c.lazy = [](char const *n, Decl const &d) { rtti::global_define().template _class<C>(n)._lazy([d](rtti::meta_define<C> x) { declare<C>(x, d); }); };
    c.id = [] { return rtti::metaTypeId<C>(); };
    c.find = [] { return rtti::MetaClass::find(rtti::metaTypeId<C>()); };
    return c;
}
template<class D, class... C> std::vector<void const *(*)(void const *)> up_row() { return {conv<D, C>()...}; }
template<class... C> Hier make_hier(std::string const &n) { return Hier{n, {make_class<C>(n)...}, {up_row<C, C...>()...}}; }

// ---- what has been declared
struct Model {
    Hier const &h; std::vector<bool> reg; std::vector<std::vector<int>> edges;    // direct registered bases in declaration order
    explicit Model(Hier const &x): h(x), reg(x.cls.size()), edges(x.cls.size()) {}
    void add(size_t c, std::vector<int> const &bases)          // as in Decl
    {
        auto put = [&](int k) { int b = h.cls[c].bases[(size_t)k]; for (int e : edges[c]) if (e == b) return; edges[c].push_back(b); };
        for (int k : bases) if (k == -1) { for (size_t i = 0; i < h.cls[c].bases.size(); ++i) put((int)i); } else put(k);
    }
    bool reach(size_t d, size_t b) const { if (d == b) return true; for (int e : edges[d]) if (reach((size_t)e, b)) return true; return false; }
    bool ambiguous(size_t d, size_t b) const { return reach(d, b) && !h.up[d][b]; }
};

// ---- registers one hierarchy in a random way, keeping the model in step
struct Registrar {
    pbt::Ctx &c; Hier const &h; Model m; size_t n; std::vector<std::vector<int>> derived; std::vector<bool> lazy_;
    std::function<std::vector<int>(size_t)> items = [](size_t) { return std::vector<int>{}; };       // what else to declare in a block of class k
    std::function<void(size_t, std::vector<int> const &)> declared = [](size_t, std::vector<int> const &) {};
    Registrar(pbt::Ctx &x, Hier const &hh): c(x), h(hh), m(hh), n(hh.cls.size()), derived(n), lazy_(n) {}
    std::vector<int> some_bases(size_t k)
    {
        std::vector<int> r; size_t nb = h.cls[k].bases.size(); if (!nb) return r;
        switch (c.weighted({4, 3, 2})) {
        case 0: r.push_back(-1); break;
        case 1: { std::vector<int> p; for (size_t i = 0; i < nb; ++i) p.push_back((int)i); for (size_t i = nb; i > 1; --i) std::swap(p[i - 1], p[c.draw(i)]); r = p; break; }
        default: for (size_t i = 0; i < nb; ++i) if (c.chance(2, 3)) r.push_back((int)i); break;
        }
        if (!r.empty() && c.chance(1, 6)) r.push_back(c.chance(1, 2) ? r[0] : (int)c.draw(nb));
        // unregistered bases cannot be named
        std::vector<int> ok;
        for (int b : r) {
            if (b == -1) { bool full = true; for (int x : h.cls[k].bases) full &= m.reg[(size_t)x]; if (full) ok.push_back(-1); else for (size_t i = 0; i < nb; ++i) if (m.reg[(size_t)h.cls[k].bases[i]]) ok.push_back((int)i); }
            else if (m.reg[(size_t)h.cls[k].bases[(size_t)b]]) ok.push_back(b);
        }
        return ok;
    }
    void add_edges(size_t k, std::vector<int> const &b)
    {
        auto before = m.edges[k].size(); m.add(k, b);
        for (size_t i = before; i < m.edges[k].size(); ++i) derived[(size_t)m.edges[k][i]].push_back((int)k);
    }
    static std::string show(std::vector<int> const &b) { std::string s; for (int x : b) s += x == -1 ? " all" : " #" + std::to_string(x); return s; }
    static std::string showi(std::vector<int> const &b) { std::string s; for (int x : b) s += " " + std::to_string(x); return b.empty() ? "" : ", items" + s; }
    std::vector<size_t> order() { std::vector<size_t> o; for (size_t i = 0; i < n; ++i) o.push_back(i); for (size_t i = n; i > 1; --i) std::swap(o[i - 1], o[c.draw(i)]); return o; }
    void open_all(int unregistered)         // opens the classes in random order, some with a deferred definition; every `unregistered`-th stays unregistered
    {
        auto ord = order();
        for (size_t k : ord) m.reg[k] = !unregistered || !c.chance(1, unregistered);
        for (size_t k : ord) {
            auto const *name = h.cls[k].name.c_str();
            if (!m.reg[k]) { c.note("%s stays unregistered", name); continue; }
            if (c.chance(1, 3)) {
                auto b = some_bases(k); auto it = items(k); c.note("%s: deferred definition, bases%s%s", name, show(b).c_str(), showi(it).c_str());
                h.cls[k].lazy(name, Decl{b, it}); m.add(k, b); declared(k, it); lazy_[k] = true;
            } else { c.note("%s: opened", name); h.cls[k].open(name); }
        }
    }
    std::function<size_t()> favourite;                  // a class which is likely to be opened again
    template<class F> void declare_all(F &&between)      // declares the bases, calling between() in between
    {
        std::vector<size_t> done;
        auto block = [&](size_t k) {
            auto b = some_bases(k); auto it = items(k); c.note("%s: bases%s%s", h.cls[k].name.c_str(), show(b).c_str(), showi(it).c_str());
            h.cls[k].eager(h.cls[k].name.c_str(), Decl{b, it}); add_edges(k, b); declared(k, it);
        };
        for (size_t k : order()) {
            if (!m.reg[k] || lazy_[k]) continue;
            done.push_back(k);
            for (int rep = 0; rep < 2; ++rep) { block(k); if (!c.chance(1, 6)) break; }
            if (c.chance(1, 4)) { size_t e = c.pick_of(done); if (favourite && c.chance(1, 2)) { size_t f = favourite(); if (std::find(done.begin(), done.end(), f) != done.end()) e = f; } block(e); }         // an earlier class again
            between();
        }
    }
};
} // namespace hier
