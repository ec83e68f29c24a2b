// Deep and wide class hierarchies (C10, C11, C17): a chain of 24 classes, each with one more base in front, and a class with 24 bases.
#pragma once
#include <pbt.hpp>
#include <rtti/metadefine.h>
#include <rtti/metaclass.h>
#include <rtti/variant.h>
#include <array>
#include <string>
#include <utility>
#include <vector>

namespace large {
constexpr int DEPTH = 24, WIDTH = 24, TOTAL = DEPTH + WIDTH + 1, WIDE = TOTAL - 1;
template<int N> struct Pad { long pad[N % 3 + 1] = {}; virtual ~Pad() = default; };
template<int N> struct Chain: Pad<N>, Chain<N - 1> { int own = N; DECLARE_CLASSINFO };
template<> struct Chain<0> { int own = 0; virtual ~Chain() = default; DECLARE_CLASSINFO };
template<int N> struct Side { int own = DEPTH + N; virtual ~Side() = default; DECLARE_CLASSINFO };
template<class> struct Wide_; template<size_t... I> struct Wide_<std::index_sequence<I...>>: Side<(int)I>... { int own = WIDE; DECLARE_CLASSINFO };
struct Wide: Wide_<std::make_index_sequence<WIDTH>> { int own = WIDE; DECLARE_CLASSINFO };
template<int I, bool C = (I < DEPTH), bool W = (I == WIDE)> struct Nth_ { using type = Chain<I>; };
template<int I> struct Nth_<I, false, false> { using type = Side<I - DEPTH>; };
template<int I> struct Nth_<I, false, true> { using type = Wide; };
template<int I> using Nth = typename Nth_<I>::type;

inline bool base_of(int b, int d) { return b == d || (b < DEPTH && d < DEPTH && b < d) || (d == WIDE && b >= DEPTH); }
struct Op {
    std::string name; rtti::MetaType_ID (*id)(); void (*open)(std::string const &);
    void *(*make)(); void (*kill)(void *);
    void (*method)(std::string const &cls, std::string const &, int (*)(int)); void (*property)(std::string const &cls, std::string const &, int *);
    void (*bases[TOTAL])(std::string const &cls);                    // declares that base
    void const *(*up[TOTAL])(void const *);                          // this* -> base*
    void const *(*cast[TOTAL])(void const *); void const *(*dyn[TOTAL])(void const *);     // meta_cast and dynamic_cast of this* to that class
};
template<int I, int B> void fill(Op &o)
{
    using D = Nth<I>; using T = Nth<B>;
    if constexpr (I != B && std::is_base_of_v<T, D>) o.bases[B] = [](std::string const &c) { auto g = rtti::global_define(); g.template _class<D>(c).template _base<T>(); };
    if constexpr (std::is_base_of_v<T, D>) o.up[B] = [](void const *p) -> void const * { return static_cast<T const *>(static_cast<D const *>(p)); };
    o.cast[B] = [](void const *p) -> void const * { return rtti::meta_cast<T>(static_cast<D const *>(p)); };
    o.dyn[B] = [](void const *p) -> void const * { return dynamic_cast<T const *>(static_cast<D const *>(p)); };
}
template<int I, int... B> Op make(std::integer_sequence<int, B...>)
{
    using D = Nth<I>; Op o{}; o.name = I < DEPTH ? "Chain" + std::to_string(I) : I == WIDE ? "Wide" : "Side" + std::to_string(I - DEPTH);
    o.id = [] { return rtti::metaTypeId<D>(); }; o.open = [](std::string const &c) { auto g = rtti::global_define(); g.template _class<D>(c); };
    o.make = []() -> void * { return new D; }; o.kill = [](void *p) { delete static_cast<D *>(p); };
    o.method = [](std::string const &c, std::string const &n, int (*f)(int)) { auto g = rtti::global_define(); g.template _class<D>(c)._method(n, f); };
    o.property = [](std::string const &c, std::string const &n, int *p) { auto g = rtti::global_define(); g.template _class<D>(c)._property(n, p); };
    (fill<I, B>(o), ...); return o;
}
template<int... I> std::vector<Op> make_all(std::integer_sequence<int, I...> s) { return {make<I>(s)...}; }
std::vector<Op> const &ops();

struct Model {
    pbt::Ctx &c; std::vector<bool> reg = std::vector<bool>(TOTAL); std::vector<std::vector<int>> bases = std::vector<std::vector<int>>(TOTAL), derived = std::vector<std::vector<int>>(TOTAL);
    explicit Model(pbt::Ctx &x): c(x) {}
    rtti::MetaClass const *cls(int i) { return rtti::MetaClass::find(ops()[(size_t)i].id()); }
    bool reach(int d, int b) const { if (d == b) return true; for (int x : bases[(size_t)d]) if (reach(x, b)) return true; return false; }
    void link(int d, int b) { for (int x : bases[(size_t)d]) if (x == b) return; bases[(size_t)d].push_back(b); derived[(size_t)b].push_back(d); }
    void base(int d, int b) { if (!reg[(size_t)d] || !reg[(size_t)b]) return; ops()[(size_t)d].bases[b](ops()[(size_t)d].name); link(d, b); }
    // all classes opened in some order, then the direct bases in some order, some left out, some again
    void build(int leave)
    {
        std::vector<int> o; for (int i = 0; i < TOTAL; ++i) o.push_back(i); int style = (int)c.draw(3);
        if (style == 1) std::swap(o[0], o[c.draw(TOTAL)]); if (style == 2) for (size_t i = TOTAL; i > 1; --i) std::swap(o[i - 1], o[c.draw(i)]);
        for (int i : o) if (!leave || !c.chance(1, 20)) { ops()[(size_t)i].open(ops()[(size_t)i].name); reg[(size_t)i] = true; }
        for (int i : o) {
            if (i < DEPTH && i > 0) base(i, i - 1);
            if (i == WIDE) { int from = (int)c.draw(WIDTH); for (int k = 0; k < WIDTH; ++k) if (!leave || !c.chance(1, 12)) base(WIDE, DEPTH + (k + from) % WIDTH); }
        }
        while (c.more(4)) { int d = 1 + (int)c.draw(DEPTH - 1); base(d, d - 1); }
    }
};
} // namespace large
