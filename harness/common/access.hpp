// Type-erased typed access: Acc is "ask a variant for a T in every way", Src is "a variant holding an S".
#pragma once
#include <common/kinds.hpp>
#include <common/shape.hpp>
#include <rtti/metaerror.h>
#include <string>

namespace access {
using rtti::variant;
using shape::Shape;

enum Res : int { OK, CAST, CONVERT, OTHER };     // how an access ended
struct Got { Res r; void const *p; };            // p: address of what was returned

struct Acc {
    std::string name; Shape s; bool array, copyable;
    bool (*is[3])(variant &);                    // T, T&, T&&
    bool (*isc[3])(variant const &);
    Got (*ref)(variant &), (*cref)(variant &), (*rref)(variant &), (*refr)(variant &), (*refc)(variant const &), (*crefc)(variant const &);
    void const *(*data)(variant &), *(*datac)(variant const &);
    bool (*can)(variant &), (*canc)(variant const &);
    // result of to<T>: `same` compares the returned value with the decayed object at `obj`
    Res (*to)(variant &, void const *obj, bool &same), (*toc)(variant const &, void const *obj, bool &same);
    Res (*convert)(variant &); bool (*tryConvert)(variant &);
    rtti::MetaType_ID (*id)();
};
struct Src {
    std::string name; Shape s; bool copyable;
    variant (*make)(void *obj, int form);        // 0 rvalue copy, 1 lvalue, 2 const lvalue, 3 ref, 4 cref
    void *(*create)(int v); void (*destroy)(void *); bool (*same)(void const *, int v);
    void const *(*addr)(variant const &);        // address of the stored object
    rtti::MetaType_ID (*id)(bool cst);
};
inline std::vector<Acc> &accs() { static std::vector<Acc> v; return v; }
inline std::vector<Src> &srcs() { static std::vector<Src> v; return v; }

template<class F> Got attempt(F &&f)
{
    try { return {OK, f()}; }
    catch (rtti::bad_variant_convert const &) { return {CONVERT, nullptr}; }
    catch (rtti::bad_variant_cast const &) { return {CAST, nullptr}; }
    catch (rtti::runtime_error const &) { return {OTHER, nullptr}; }
}
template<class T> bool equal_decayed(T const &got, void const *obj)
{
    using D = rtti::full_decay_t<T>;
    if constexpr (std::is_scalar_v<D>) { D a, b; memcpy(&a, &got, sizeof a); memcpy(&b, obj, sizeof b); return a == b; }
    else return got == *static_cast<D const *>(obj);
}
template<class T> struct A {
    static constexpr bool Arr = std::is_array_v<T>, Copy = std::is_copy_constructible_v<T>;
    template<class V, class U> static bool is_(V &v) { return v.template is<U>(); }
    static Got ref(variant &v) { return attempt([&] { return (void const *)std::addressof(v.ref<T>()); }); }
    static Got cref(variant &v) { return attempt([&] { return (void const *)std::addressof(v.cref<T>()); }); }
    static Got refc(variant const &v) { return attempt([&] { return (void const *)std::addressof(v.ref<T>()); }); }
    static Got crefc(variant const &v) { return attempt([&] { return (void const *)std::addressof(v.cref<T>()); }); }
    static Got refr(variant &v) { return attempt([&] { auto &&r = std::move(v).ref<T>(); return (void const *)std::addressof(r); }); }
    static Got rref(variant &v) { return attempt([&] { auto &&r = std::move(v).rref<T>(); return (void const *)std::addressof(r); }); }
    static void const *data(variant &v) { return v.data<T>(); }
    static void const *datac(variant const &v) { return v.data<T>(); }
    template<class V> static bool can(V &v) { return v.template canConvert<T>(); }
    template<class V> static Res to(V &v, void const *obj, bool &same)
    {
        (void)obj;
        if constexpr (Arr || !Copy) { same = false; return OTHER; }
        else return attempt([&] { auto &&x = v.template to<T>(); same = equal_decayed<T>(x, obj); return (void const *)nullptr; }).r;
    }
    static Res convert(variant &v)
    { if constexpr (Arr || !Copy) return OTHER; else return attempt([&] { v.convert<T>(); return (void const *)nullptr; }).r; }
    static bool tryConvert(variant &v) { if constexpr (Arr || !Copy) return false; else return v.tryConvert<T>(); }
    static Acc make()
    {
        Acc a; a.name = std::string(rtti::type_name<T>()); a.s = shape::of<T>(); a.array = Arr; a.copyable = Copy;
        a.is[0] = is_<variant, T>; a.is[1] = is_<variant, T &>; a.is[2] = is_<variant, T &&>;
        a.isc[0] = is_<variant const, T>; a.isc[1] = is_<variant const, T &>; a.isc[2] = is_<variant const, T &&>;
        a.ref = ref; a.cref = cref; a.refc = refc; a.crefc = crefc; a.refr = refr; a.rref = rref; a.data = data; a.datac = datac;
        a.can = can<variant>; a.canc = can<variant const>; a.to = to<variant>; a.toc = to<variant const>;
        a.convert = convert; a.tryConvert = tryConvert; a.id = [] { return rtti::metaTypeId<std::remove_cv_t<T>>(); };
        return a;
    }
};
template<class S> struct SrcOf {
    using E = std::remove_extent_t<S>; using E2 = std::remove_all_extents_t<S>;
    static constexpr bool Arr = std::is_array_v<S>, Copy = std::is_copy_constructible_v<E2>;
    struct Box { S obj; };
    template<size_t... I> static Box *mk(int v, std::index_sequence<I...>)
    {
        if constexpr (std::is_array_v<E>) { auto *b = new Box; for (size_t i = 0; i < sizeof(S) / sizeof(E2); ++i) const_cast<std::remove_const_t<E2> *>(&b->obj[0][0])[i] = kinds::Tr<std::remove_const_t<E2>>::make(v + (int)i); return b; }
        else return new Box{{(E)kinds::Tr<std::remove_const_t<E>>::make(v + (int)I)...}};
    }
    static void *create(int v)
    {
        if constexpr (Arr) return mk(v, std::make_index_sequence<std::extent_v<S>>{});
        else return new Box{kinds::Tr<S>::make(v)};
    }
    static S &o(void *p) { return static_cast<Box *>(p)->obj; }
    static void destroy(void *p) { delete static_cast<Box *>(p); }
    static bool eq(E2 const *a, int v) { for (size_t i = 0; i < sizeof(S) / sizeof(E2); ++i) if (!kinds::Tr<std::remove_const_t<E2>>::same(a[i], v + (int)i)) return false; return true; }
    static bool same(void const *p, int v) { return eq((E2 const *)p, v); }
    static variant make(void *p, int form)
    {
        S &x = o(p); S const &cx = x; (void)cx;
        switch (form) {
        case 3: return variant{std::ref(x)};
        case 4: return variant{std::cref(x)};
        default: break;
        }
        if constexpr (Copy) {
            if (form == 1) return variant{x};
            if (form == 2) return variant{cx};
            if constexpr (!Arr) { S t = x; return variant{std::move(t)}; }
            else return variant{x};
        } else return variant{std::move(x)};
    }
    static void const *addr(variant const &v) { return std::addressof(v.cref<S>()); }
    static Src src()
    { return Src{std::string(rtti::type_name<S>()), shape::of<S>(), Copy, make, create, destroy, same, addr, [](bool c) { return c ? rtti::metaTypeId<S const>() : rtti::metaTypeId<S>(); }}; }
};
template<class... T> struct L {};
template<class... T> int add_accs(L<T...>) { (accs().push_back(A<T>::make()), ...); return 0; }
template<class... T> int add_srcs(L<T...>) { (srcs().push_back(SrcOf<T>::src()), ...); return 0; }
} // namespace access
