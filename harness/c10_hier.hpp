// C10: casts between all pairs of classes of one hierarchy.
#pragma once
#include <common/hier.hpp>
#include <rtti/metaerror.h>
namespace hier {
template<class C, class D> void declare_items(D &, std::vector<int> const &) {}
struct CastOps { void const *(*dyn)(void const *); void const *(*mc[4])(void *); };       // dyn: dynamic_cast; mc: pointer, const pointer, reference, const reference
struct Casts { std::vector<std::vector<CastOps>> op; };                                    // op[from static][to]
inline std::vector<Casts> &casts() { static std::vector<Casts> v; return v; }
template<class F, class T> CastOps cast_ops()
{
    CastOps o;
    if constexpr (std::is_polymorphic_v<F> && (!std::is_base_of_v<T, F> || std::is_convertible_v<F *, T *>)) o.dyn = [](void const *p) -> void const * { return dynamic_cast<T const *>(static_cast<F const *>(p)); };
    else o.dyn = nullptr;
    o.mc[0] = [](void *p) -> void const * { return rtti::meta_cast<T>(static_cast<F *>(p)); };
    o.mc[1] = [](void *p) -> void const * { return rtti::meta_cast<T>(static_cast<F const *>(p)); };
    o.mc[2] = [](void *p) -> void const * { try { return &rtti::meta_cast<T>(*static_cast<F *>(p)); } catch (rtti::bad_meta_cast const &) { return nullptr; } };
    o.mc[3] = [](void *p) -> void const * { try { return &rtti::meta_cast<T>(*static_cast<F const *>(p)); } catch (rtti::bad_meta_cast const &) { return nullptr; } };
    return o;
}
template<class F, class... C> std::vector<CastOps> cast_row() { return {cast_ops<F, C>()...}; }
template<class... C> int add(char const *n) { all().push_back(make_hier<C...>(n)); casts().push_back(Casts{{cast_row<C, C...>()...}}); return 0; }
} // namespace hier
