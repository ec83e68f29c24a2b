// What the compiler says about a type, stated without the library's own traits.
#pragma once
#include <rtti/metatype.h>
#include <type_traits>
#include <string>
#include <utility>
#include <vector>
#include <set>

namespace facts {
template<class T> struct Decay0 { using type = std::remove_cv_t<T>; };                        // all const off
template<class T> struct Decay0<T *> { using type = typename Decay0<T>::type *; };
template<class T> struct Decay0<T *const> { using type = typename Decay0<T>::type *; };
template<class T, size_t N> struct Decay0<T[N]> { using type = typename Decay0<T>::type[N]; };
template<class T, size_t N> struct Decay0<T const[N]> { using type = typename Decay0<T>::type[N]; };
template<class T> using decayed = typename Decay0<std::decay_t<T>>::type;
template<class T> struct Inner { using type = std::remove_cv_t<T>; };
template<class T> struct Inner<T *> : Inner<T> {};
template<class T> struct Inner<T *const> : Inner<T> {};
template<class T> struct Inner<T &> : Inner<T> {};
template<class T> struct Inner<T &&> : Inner<T> {};
template<class T, size_t N> struct Inner<T[N]> : Inner<T> {};
template<class T, size_t N> struct Inner<T const[N]> : Inner<T> {};
template<class T> constexpr unsigned ptr_depth = 0;
template<class T> constexpr unsigned ptr_depth<T *> = 1 + ptr_depth<T>;
template<class T> constexpr unsigned ptr_depth<T *const> = 1 + ptr_depth<T>;
template<class T, class = void> constexpr bool eq = false;
template<class T> constexpr bool eq<T, std::void_t<decltype(std::declval<T const &>() == std::declval<T const &>())>> = true;

struct Ask {            // one question: name, the descriptor's answer, the compiler's
    char const *what; int got, want;
};
struct Ty {
    std::string name;
    rtti::MetaType_ID (*id)();
    rtti::MetaType_ID (*decay)();
    void (*ask)(rtti::MetaType, std::vector<Ask> &);
    bool interesting;
};
inline std::vector<Ty> &all() { static std::vector<Ty> v; return v; }

template<class T> void ask(rtti::MetaType m, std::vector<Ask> &a)
{
    using N = std::remove_reference_t<T>; using B = typename Inner<T>::type; using F = rtti::TypeFlags;
    auto fl = m.typeFlags();
    auto flag = [&](char const *w, F f, bool want) { a.push_back({w, (fl & f) == f, want}); };
    constexpr bool arr = std::is_array_v<N>;
    constexpr bool ptr_to_arr = std::is_pointer_v<N> && std::is_array_v<std::remove_pointer_t<N>>;
    constexpr bool arr_of_ptr = arr && std::is_pointer_v<std::remove_all_extents_t<N>>;
    if constexpr (std::is_void_v<N>) a.push_back({"size", (int)m.typeSize(), 0});
    else a.push_back({"size", (int)m.typeSize(), (int)sizeof(N)});
    a.push_back({"decayed", m.decayed(), std::is_same_v<T, decayed<T>>});
    a.push_back({"isConst", m.isConst(), std::is_const_v<N>});
    a.push_back({"isLvalueReference", m.isLvalueReference(), std::is_lvalue_reference_v<T>});
    a.push_back({"isRvalueReference", m.isRvalueReference(), std::is_rvalue_reference_v<T>});
    a.push_back({"isReference", m.isReference(), std::is_reference_v<T>});
    a.push_back({"isPointer", m.isPointer(), std::is_pointer_v<N>});
    a.push_back({"isArray", m.isArray(), arr});
    if constexpr (!arr) {
        a.push_back({"isClass", m.isClass(), std::is_class_v<N>});
        a.push_back({"pointerArity", (int)m.pointerArity(), (int)ptr_depth<N>});
        if constexpr (!ptr_to_arr) a.push_back({"isClassPtr", m.isClassPtr(), std::is_pointer_v<N> && std::is_class_v<std::remove_pointer_t<N>>});
        a.push_back({"isFunctionPtr", m.isFunctionPtr(), std::is_pointer_v<N> && std::is_function_v<std::remove_pointer_t<N>>});
        if constexpr (ptr_depth<N> < 2) a.push_back({"isVoidPtr", m.isVoidPtr(), std::is_pointer_v<N> && std::is_void_v<std::remove_pointer_t<N>>});
        flag("EQ_Comparable", F::EQ_Comparable, eq<N>);
        if constexpr (!ptr_to_arr) flag("Array", F::Array, false);
    } else {
        flag("Array", F::Array, true);
        if constexpr (!arr_of_ptr) a.push_back({"pointerArity", (int)m.pointerArity(), 0});
    }
    flag("Const", F::Const, std::is_const_v<N>); flag("Pointer", F::Pointer, std::is_pointer_v<N>); flag("MemberPointer", F::MemberPointer, std::is_member_pointer_v<N>);
    flag("LvalueReference", F::LvalueReference, std::is_lvalue_reference_v<T>); flag("RvalueReference", F::RvalueReference, std::is_rvalue_reference_v<T>);
    flag("Void", F::Void, std::is_void_v<B>); flag("Integral", F::Integral, std::is_integral_v<B>); flag("FloatPoint", F::FloatPoint, std::is_floating_point_v<B>);
    flag("Enum", F::Enum, std::is_enum_v<B>); flag("Function", F::Function, std::is_function_v<B>); flag("Union", F::Union, std::is_union_v<B>); flag("Class", F::Class, std::is_class_v<B>);
    flag("StandardLayout", F::StandardLayout, std::is_standard_layout_v<B>); flag("Trivial", F::Trivial, std::is_trivial_v<B>); flag("Abstract", F::Abstract, std::is_abstract_v<B>); flag("Polymorphic", F::Polymorphic, std::is_polymorphic_v<B>);
    flag("DefaultConstructible", F::DefaultConstructible, std::is_default_constructible_v<B>); flag("CopyConstructible", F::CopyConstructible, std::is_copy_constructible_v<B>); flag("CopyAssignable", F::CopyAssignable, std::is_copy_assignable_v<B>);
    flag("MoveConstructible", F::MoveConstructible, std::is_move_constructible_v<B>); flag("MoveAssignable", F::MoveAssignable, std::is_move_assignable_v<B>); flag("Destructible", F::Destructible, std::is_destructible_v<B>);
}
template<class T> int add()
{
    all().push_back(Ty{std::string(__PRETTY_FUNCTION__), [] { return rtti::metaTypeId<T>(); }, [] { return rtti::metaTypeId<decayed<T>>(); }, ask<T>,
                       !std::is_fundamental_v<T>});
    return 0;
}
template<class T> int add_shapes()          // everything that isn't an array of T
{ add<T *>(); add<T const *>(); add<T *const>(); add<T **>(); add<T const *const *>(); add<T *&>(); add<T const *const &>(); add<T *[2]>(); add<T const *(&)[3]>(); return 0; }
template<class T> int add_values() { add<T>(); add<T const>(); add<T &>(); add<T const &>(); add<T &&>(); add<T const &&>(); return 0; }
template<class T> int add_all()
{
    add_values<T>(); add_shapes<T>();
    if constexpr (!std::is_abstract_v<T>) { add<T[3]>(); add<T const[2]>(); add<T (&)[2]>(); add<T const (&)[4]>(); add<T (*)[2]>(); add<T[2][3]>(); }
    return 0;
}
} // namespace facts
