// C07: MetaType::compatible against the C++ rules.
#include <common/shape.hpp>
#include <pbt.hpp>
#include <rtti/metatype.h>
#include <string>
#include <vector>
#include "deep_types.inc"
using namespace shape;
using rtti::MetaType;

namespace {
struct Rec { int a; };
enum class En { A };

struct Ty { Shape s; MetaType mt; unsigned char const *conv; };     // conv: bit row of is_convertible to every type of its group

template<class... T> struct L { static constexpr size_t N = sizeof...(T); };

// one row of std::is_convertible
template<class F, class... T> unsigned char const *row(L<T...>)
{ static unsigned char const r[] = {std::is_convertible_v<F, T>...}; return r; }

struct Group { std::string name; std::vector<Ty> t; };

template<class... T> Group group(char const *name, L<T...> l)
{ Group g; g.name = name; (g.t.push_back(Ty{of<T>(), rtti::metaType<T>(), row<T>(l)}), ...); return g; }

template<class, class> struct Cat;
template<class... A, class... B> struct Cat<L<A...>, L<B...>> { using type = L<A..., B...>; };
template<class A, class B> using cat = typename Cat<A, B>::type;
template<class T> using refs = L<T, T &, T &&>;

template<class B, unsigned D, unsigned... M> auto ptrs(std::integer_sequence<unsigned, M...>) -> decltype((L<>{}, ..., L<chain_t<B, D, M>>{}));
template<class A, class... R> struct Join { using type = A; };
template<class A, class R, class... Rs> struct Join<A, R, Rs...> : Join<cat<A, R>, Rs...> {};

template<class B, unsigned D, class S> struct Ptrs;
template<class B, unsigned D, unsigned... M> struct Ptrs<B, D, std::integer_sequence<unsigned, M...>>
{ using type = typename Join<L<>, refs<chain_t<B, D, M>>...>::type; };
template<class B, unsigned D, size_t N, class S> struct Arrs;
template<class B, unsigned D, size_t N, unsigned... M> struct Arrs<B, D, N, std::integer_sequence<unsigned, M...>>
{ using type = typename Join<L<>, refs<chain_t<B, D, M>[N]>...>::type; };
template<class B, unsigned D> using ptrs_t = typename Ptrs<B, D, std::make_integer_sequence<unsigned, (2u << D)>>::type;
template<class B, unsigned D, size_t N> using arrs_t = typename Arrs<B, D, N, std::make_integer_sequence<unsigned, (2u << D)>>::type;
// everything whose decayed type is B with D pointers
template<class B, unsigned D> struct All { using type = cat<ptrs_t<B, D>, cat<arrs_t<B, D - 1, 2>, arrs_t<B, D - 1, 3>>>; };
template<class B> struct All<B, 0> { using type = ptrs_t<B, 0>; };
template<class B, unsigned D> using all_t = typename All<B, D>::type;

std::vector<Group> const &groups()
{
    static std::vector<Group> const g = {
        group("int", all_t<int, 0>{}), group("int*", all_t<int, 1>{}), group("int**", all_t<int, 2>{}), group("int***", all_t<int, 3>{}),
        group("Rec", all_t<Rec, 0>{}), group("Rec*", all_t<Rec, 1>{}), group("Rec**", all_t<Rec, 2>{}),
        group("enum*", all_t<En, 1>{}), group("void*", ptrs_t<void, 1>{}), group("void**", all_t<void, 2>{}),
        group("function*", L<int (*)(int), int (*const)(int), int (*&)(int), int (*const &)(int), int (*&&)(int), int (*const &&)(int)>{}),
        group("int(*)[4]", cat<ptrs_t<int[4], 1>, L<int[2][4], int const[2][4], int (&)[2][4], int const (&)[2][4], int (&&)[2][4], int[3][4], int (&)[3][4], int const (&)[3][4]>>{}),
        group("int Rec::*", cat<ptrs_t<int Rec::*, 0>, L<>>{}), group("int Rec::**", all_t<int Rec::*, 1>{}),
    };
    return g;
}
std::string text(Ty const &t) { return std::string(t.mt.typeName()); }
char const *vn(int v) { return v == NO ? "no" : v == YES ? "yes" : "either"; }

void judge(pbt::Ctx &c, Shape const &fs, MetaType from, Shape const &ts, MetaType to)
{
    auto want = allow(fs, ts);
    bool got = MetaType::compatible(from, to);
    c.note("compatible(%s -> %s) = %d, C++ says %s", std::string(from.typeName()).c_str(), std::string(to.typeName()).c_str(), got, vn(want));
    if (want == EITHER) { c.label("temporary needed"); return; }
    c.label(want == YES ? "allowed" : "refused");
    c.check(got == (want == YES), "compatible(%s -> %s) is %d, C++ says %s", std::string(from.typeName()).c_str(), std::string(to.typeName()).c_str(), got, vn(want));
    c.check(MetaType::compatible(from, to) == got, "the answer changes");
}

LAW(pairs, pbt::PLAIN, 1500000, 30000000, "uniform pairs of types with one decayed type: every const pattern to pointer depth 3, both references, arrays of length 2 and 3, of int, class, enum, void, function, array and member-pointer bases; judged by the standard's rules, which are themselves cross-checked with std::is_convertible for every pair; non-trivial: the two types differ")
{
    auto const &g = c.pick_of(groups());
    size_t i = c.draw(g.t.size()), j = c.draw(g.t.size());
    auto const &f = g.t[i]; auto const &t = g.t[j];
    auto want = allow(f.s, t.s);
    // the oracle against the compiler, wherever the language has the notion
    bool conv = f.conv[j];
    if (!t.s.ext && !(f.s.base == &BaseTag<int[4]>::tag)) {
        bool temp = t.s.ref == 2 && want == NO && conv;       // binds a converted temporary, not the value itself
        if (want != EITHER && !temp && conv != (want == YES)) { fprintf(stderr, "ORACLE: %s -> %s: is_convertible %d, model %s\n", text(f).c_str(), text(t).c_str(), conv, vn(want)); abort(); }
        if (want == YES && !conv) abort();
    }
    judge(c, f.s, f.mt, t.s, t.mt);
    if (i == j && f.s.ref != 0) c.label("same type");
    if (i != j) c.nontrivial();
}
LAW(reflexive, pbt::PLAIN, 200000, 1000000, "uniform types: every type except a plain array lvalue serves as itself, an invalid type never is compatible; non-trivial: the type has a pointer, a reference or an array")
{
    auto const &g = c.pick_of(groups()); auto const &t = c.pick_of(g.t);
    c.note("%s", text(t).c_str());
    c.check(MetaType::compatible(t.mt, t.mt), "%s is not compatible with itself", text(t).c_str());
    c.check(!MetaType::compatible(MetaType{}, t.mt) && !MetaType::compatible(t.mt, MetaType{}) && !MetaType::compatible(MetaType{}, MetaType{}), "an invalid type is compatible");
    c.check(!MetaType::compatible(MetaType{rtti::metaTypeId<void>()}, t.mt), "void is compatible");
    if (t.s.depth || t.s.ref || t.s.ext) c.nontrivial();
}
// deep pointer chains: types are generated from the seed at build time
LAW(deep_chains, pbt::PLAIN, 300000, 5000000, "pairs of generated pointer chains of depth 4..14 with random const patterns and references, many differing in one or two levels only; non-trivial: the const patterns differ")
{
    struct E { Shape s; MetaType m; };
    static std::vector<std::vector<E>> const gs = [] {
        std::vector<std::vector<E>> r(16);
        auto add = [&](auto *tag) { using T = std::remove_pointer_t<decltype(tag)>; using U = typename T::type; r[of<U>().depth + (of<U>().ext ? 1 : 0)].push_back({of<U>(), rtti::metaType<U>()}); };
        DEEP_TYPES(add)
        r.erase(std::remove_if(r.begin(), r.end(), [](auto &v) { return v.empty(); }), r.end());
        return r;
    }();
    auto const &g = c.pick_of(gs); auto const &f = c.pick_of(g); auto const &t = c.pick_of(g);
    judge(c, f.s, f.m, t.s, t.m);
    if (f.s.mask != t.s.mask) c.nontrivial();
}
} // namespace
