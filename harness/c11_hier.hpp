// C11: variants of objects of one hierarchy, used as any class of it.
#pragma once
#include <common/hier.hpp>
#include <rtti/metaerror.h>
namespace hier {
template<class C, class D> void declare_items(D &, std::vector<int> const &) {}
using rtti::variant;
struct Cell { void *obj; void *var; };            // an object (as S) and a pointer variable of type S*
enum Form { RVALUE, LVALUE, REF, CREF, PTR, CPTR, REFPTR, CREFPTR, REFCPTR, FORMS };
struct Make { variant (*make)(void *s, void **slot, int form); void const *(*addr)(variant const &, bool cst); };
struct Result { int how; void const *p; };        // how: 0 ok, 1 bad_variant_cast, 2 bad_variant_convert, 3 runtime_error
struct AsOps {
    // of class type: T, T const, T&, T const&, T&&
    bool (*is[5])(variant &), (*isc[5])(variant const &);
    Result (*ref)(variant &), (*cref)(variant &), (*refc)(variant const &), (*refm)(variant &), (*rref)(variant &);
    void const *(*data)(variant &), *(*datac)(variant const &);
    bool (*can)(variant &), (*canc)(variant const &);
    Result (*to)(variant &, int &tag), (*toc)(variant const &, int &tag);      // sliced copy, only if it can be copied
    // of pointer type: T*, T const*
    bool (*pis[2])(variant &), (*pisc[2])(variant const &), (*pcan[2])(variant &);
    Result (*pto[2])(variant &), (*ptoc[2])(variant const &);
    Result (*pref[2])(variant &), (*pcref[2])(variant &), (*pcrefc[2])(variant const &);   // the pointer referred to
    void (*settag)(void *t, int), (*gettag)(void const *t, int &);
    bool sliceable;
};
struct Variants { std::vector<Make> make; std::vector<AsOps> as; };
inline std::vector<Variants> &variants() { static std::vector<Variants> v; return v; }

template<class F> Result attempt(F &&f)
{
    try { return {0, f()}; }
    catch (rtti::bad_variant_convert const &) { return {2, nullptr}; }
    catch (rtti::bad_variant_cast const &) { return {1, nullptr}; }
    catch (rtti::runtime_error const &) { return {3, nullptr}; }
}
template<class S> variant make_variant(void *s, void **slot, int form)
{
    S *o = static_cast<S *>(s); auto **p = reinterpret_cast<S **>(slot); auto **cp = static_cast<S const **>(static_cast<void *>(slot)); *p = o;
    switch (form) {
    case REF: return variant{std::ref(*o)};
    case CREF: return variant{std::cref(*o)};
    case PTR: return variant{o};
    case CPTR: return variant{const_cast<S const *>(o)};
    case REFPTR: return variant{std::ref(*p)};
    case CREFPTR: return variant{std::cref(*p)};
    case REFCPTR: return variant{std::ref(*cp)};
    default:
        if constexpr (!std::is_abstract_v<S>) { if (form == LVALUE) return variant{*o}; S t{*o}; return variant{std::move(t)}; }
        else return variant{};
    }
}
template<class T, class V> bool is_(V &v) { return v.template is<T>(); }
template<class S> Make make_ops() { return Make{make_variant<S>, [](variant const &v, bool) { return (void const *)v.data<S>(); }}; }
template<class T> AsOps as_ops()
{
    AsOps o; constexpr bool slice = !std::is_abstract_v<T>; o.sliceable = slice;
    o.is[0] = is_<T, variant>; o.is[1] = is_<T const, variant>; o.is[2] = is_<T &, variant>; o.is[3] = is_<T const &, variant>; o.is[4] = is_<T &&, variant>;
    o.isc[0] = is_<T, variant const>; o.isc[1] = is_<T const, variant const>; o.isc[2] = is_<T &, variant const>; o.isc[3] = is_<T const &, variant const>; o.isc[4] = is_<T &&, variant const>;
    o.ref = [](variant &v) { return attempt([&] { return (void const *)&v.ref<T>(); }); };
    o.cref = [](variant &v) { return attempt([&] { return (void const *)&v.cref<T>(); }); };
    o.refc = [](variant const &v) { return attempt([&] { return (void const *)&v.ref<T>(); }); };
    o.refm = [](variant &v) { return attempt([&] { auto &&r = std::move(v).ref<T>(); return (void const *)&r; }); };
    o.rref = [](variant &v) { return attempt([&] { auto &&r = std::move(v).rref<T>(); return (void const *)&r; }); };
    o.data = [](variant &v) -> void const * { return v.data<T>(); };
    o.datac = [](variant const &v) -> void const * { return v.data<T>(); };
    o.can = [](variant &v) { return v.canConvert<T>(); };
    o.canc = [](variant const &v) { return v.canConvert<T>(); };
    if constexpr (slice) {
        o.to = [](variant &v, int &tag) { return attempt([&]() -> void const * { auto x = v.to<T>(); tag = Info<T>::tag(x); return nullptr; }); };
        o.toc = [](variant const &v, int &tag) { return attempt([&]() -> void const * { auto x = v.to<T>(); tag = Info<T>::tag(x); return nullptr; }); };
    } else { o.to = nullptr; o.toc = nullptr; }
    o.pis[0] = is_<T *, variant>; o.pis[1] = is_<T const *, variant>; o.pisc[0] = is_<T *, variant const>; o.pisc[1] = is_<T const *, variant const>;
    o.pcan[0] = [](variant &v) { return v.canConvert<T *>(); }; o.pcan[1] = [](variant &v) { return v.canConvert<T const *>(); };
    o.pto[0] = [](variant &v) { return attempt([&] { return (void const *)v.to<T *>(); }); };
    o.pto[1] = [](variant &v) { return attempt([&] { return (void const *)v.to<T const *>(); }); };
    o.ptoc[0] = [](variant const &v) { return attempt([&] { return (void const *)v.to<T *>(); }); };
    o.ptoc[1] = [](variant const &v) { return attempt([&] { return (void const *)v.to<T const *>(); }); };
    o.pref[0] = [](variant &v) { return attempt([&] { return (void const *)v.ref<T *>(); }); };
    o.pref[1] = [](variant &v) { return attempt([&] { return (void const *)v.ref<T const *>(); }); };
    o.pcref[0] = [](variant &v) { return attempt([&] { return (void const *)v.cref<T *>(); }); };
    o.pcref[1] = [](variant &v) { return attempt([&] { return (void const *)v.cref<T const *>(); }); };
    o.pcrefc[0] = [](variant const &v) { return attempt([&] { return (void const *)v.cref<T *>(); }); };
    o.pcrefc[1] = [](variant const &v) { return attempt([&] { return (void const *)v.cref<T const *>(); }); };
    o.settag = [](void *t, int x) { Info<T>::tag(*static_cast<T *>(t)) = x; };
    o.gettag = [](void const *t, int &x) { x = Info<T>::tag(*const_cast<T *>(static_cast<T const *>(t))); };
    return o;
}
template<class... C> int add(char const *n) { all().push_back(make_hier<C...>(n)); variants().push_back(Variants{{make_ops<C>()...}, {as_ops<C>()...}}); return 0; }
} // namespace hier
