// C17: methods and properties with colliding names, distributed over generated hierarchies.
#pragma once
#include <common/hier.hpp>
#include <rtti/metaerror.h>
namespace hier {
using namespace rtti;
constexpr int FNS = 6, PRS = 3, NAMES = 6;
inline char const *item_name(int i) { static char const *n[] = {"m", "m1", "mm", "M", "x", "a long name, with blanks"}; return n[i]; }
inline int item(int prop, int name, int k) { return prop * 100 + name * 10 + k; }
template<class C> constexpr int code() { return Info<C>::hier * 1000 + Info<C>::index * 100; }
template<class C> int f2() { return code<C>() + 2; }
template<class C> int f3(int) { return code<C>() + 3; }
template<class C> int f4(int) { return code<C>() + 4; }
template<class C> int f5(double) { return code<C>() + 5; }
template<class C, int K> int var = code<C>() + 50 + K;
template<class C, class D> void declare_item(D &d, int i)
{
    std::string name = item_name(i / 10 % 10);
    if (i < 100) switch (i % 10) {
    case 0: d._method(name, Info<C>::mem()); break; case 1: d._method(name, Info<C>::cmem()); break; case 2: d._method(name, &f2<C>); break;
    case 3: d._method(name, &f3<C>); break; case 4: d._method(name, &f4<C>); break; default: d._method(name, &f5<C>); break;
    } else switch (i % 10) { case 0: d._property(name, &var<C, 0>); break; case 1: d._property(name, &var<C, 1>); break; default: d._property(name, Info<C>::tagp()); break; }
}
template<class C, class D> void declare_items(D &d, std::vector<int> const &items) { for (int i : items) declare_item<C>(d, i); }
struct Lookup {
    std::string cls; int hier; int (*call)(MetaMethod const *, int, void *obj); int (*get)(MetaProperty const *, int, void *obj);
    MetaMethod const *(*typed)(MetaClass const *, std::string const &, int k);       // getMethod<Args...>(name) for function k of this class
    variant (*make)(void *obj, int form);
};
struct Lookups { std::vector<Lookup> of; };
inline std::vector<Lookups> &lookups() { static std::vector<Lookups> v; return v; }
template<class C> Lookup lookup()
{
    Lookup l; l.hier = Info<C>::hier; l.cls = "h" + std::to_string(Info<C>::hier) + "::C" + std::to_string(Info<C>::index) + "&";
    l.call = [](MetaMethod const *m, int k, void *o) -> int {
        switch (k) { case 0: { variant v{static_cast<C *>(o)}; return m->invoke(v, 1).template to<int>(); } case 1: { variant v{std::ref(*static_cast<C *>(o))}; return m->invoke(v).template to<int>(); } case 2: return m->invoke().template to<int>(); case 3: case 4: return m->invoke(1).template to<int>(); default: return m->invoke(1.5).template to<int>(); } };
    l.get = [](MetaProperty const *p, int k, void *o) -> int { if (k < 2) return p->get().template to<int>(); variant v{static_cast<C *>(o)}; return p->get(v).template to<int>(); };
    l.typed = [](MetaClass const *c, std::string const &n, int k) -> MetaMethod const * { switch (k) { case 0: return c->getMethod<C &, int>(n); case 1: return c->getMethod<C const &>(n); case 2: return c->getMethod<>(n); case 3: case 4: return c->getMethod<int>(n); default: return c->getMethod<double>(n); } };
    l.make = [](void *o, int form) { auto *p = static_cast<C *>(o); return form == 0 ? variant{p} : form == 1 ? variant{std::ref(*p)} : variant{const_cast<C const *>(p)}; };
    return l;
}
template<class... C> int add(char const *n) { all().push_back(make_hier<C...>(n)); lookups().push_back(Lookups{{lookup<C>()...}}); return 0; }
} // namespace hier
