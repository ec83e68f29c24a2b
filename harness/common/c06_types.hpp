// The types every module of the C06 check knows about.
#pragma once
#include <rtti/metatype.h>
#include <rtti/variant.h>
#include <common/facts.hpp>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <tuple>
#include <vector>

namespace m1 { struct X { int a; }; struct Y { X x; }; namespace deep { struct X { char c[3]; }; template<class T> struct W { T t; }; } enum class E : char { A }; struct O { struct I { int v; }; int m; int f(long) const; }; }
namespace m2 { struct X { double a; }; template<class T> struct W { T t; }; enum class E : char { A }; struct O { struct I { char v; }; int m; }; template<int N> struct Num { char c[N]; }; template<bool B> struct Flag {}; }
namespace m1x { struct X { long l[2]; }; }
struct X { short s; };
template<class... T> struct Pack {};
// names of hundreds and thousands of characters which differ at their ends, or only in the middle
namespace a_namespace_with_a_name_which_takes_more_room_than_most_others { template<class T, class U> struct A_Class_Template_With_A_Long_Name { T t; }; struct A_Class_With_A_Long_Name_Too { int x; }; }
namespace lng = a_namespace_with_a_name_which_takes_more_room_than_most_others;
template<int N, class T> struct NestT { using type = lng::A_Class_Template_With_A_Long_Name<lng::A_Class_With_A_Long_Name_Too, typename NestT<N - 1, T>::type>; };
template<class T> struct NestT<0, T> { using type = T; };
template<int N, class T> using Nest = typename NestT<N, T>::type;

#define C06_BASE(F) F(int) F(unsigned) F(long) F(long long) F(unsigned long) F(char) F(signed char) F(unsigned char) F(short) F(bool) F(float) F(double) F(long double) F(char16_t) F(wchar_t) \
    F(m1::X) F(m2::X) F(m1x::X) F(X) F(m1::deep::X) F(m1::Y) F(m1::E) F(m2::E) F(m1::O::I) F(m2::O::I) F(m1::deep::W<int>) F(m2::W<int>) F(m2::W<long>) F(m2::W<m2::W<int>>) F(m2::W<int *>) F(m2::W<int const>) \
    F(m2::Num<1>) F(m2::Num<2>) F(m2::Num<10>) F(m2::Num<11>) F(m2::Flag<true>) F(m2::Flag<false>) F(std::string) F(std::vector<int>) F(std::vector<long>) F(std::vector<std::vector<int>>) F(std::unique_ptr<int>) F(std::shared_ptr<int>) F(std::shared_ptr<m1::X>) F(std::optional<int>)
#define C06_EXTRA(F) F(Pack<>) F(Pack<int>) F(Pack<int TT_COMMA int>) F(Pack<int TT_COMMA long>) F(Pack<long TT_COMMA int>) F(Pack<Pack<int> TT_COMMA int>) F(Pack<Pack<int TT_COMMA int>>) F(std::tuple<int TT_COMMA char>) F(std::tuple<char TT_COMMA int>) \
    F(std::map<int TT_COMMA std::string>) F(std::function<int(int)>) F(std::function<int(int TT_COMMA int)>) F(std::function<void()>) \
    F(int (*)(int)) F(int (*)(long)) F(int (*)(int TT_COMMA int)) F(void (*)()) F(void (*)() noexcept) F(void (*)(int (*)(int))) F(int m1::O::*) F(int m2::O::*) F(int (m1::O::*)(long) const) F(int (m1::O::*)(long)) F(long (m1::O::*)(long) const) \
    F(void *) F(void const *) F(void **) F(std::nullptr_t) F(int[1]) F(int[2]) F(int[12]) F(int[2][3]) F(int[3][2]) F(int (*)[3]) F(int (*)[2]) F(int *[3]) F(int const[2]) F(int (&)[3]) F(int const (&)[3]) F(std::string[2]) \
    F(Nest<2 TT_COMMA int>) F(Nest<2 TT_COMMA long>) F(Nest<2 TT_COMMA int *>) F(Nest<2 TT_COMMA int const *>) F(Nest<4 TT_COMMA m1::X>) F(Nest<4 TT_COMMA m2::X>) F(Nest<20 TT_COMMA int>) F(Nest<20 TT_COMMA char>) F(Nest<21 TT_COMMA int>) F(Pack<Nest<3 TT_COMMA int> TT_COMMA int>) F(Pack<Nest<3 TT_COMMA int> TT_COMMA long>) F(Pack<Nest<3 TT_COMMA long> TT_COMMA int>)
#define TT_COMMA ,
template<class T> rtti::MetaType_ID c06_id() { return rtti::metaTypeId<T>(); }
struct C06_Entry { rtti::MetaType_ID (*id)(); };
#define C06_SHAPES(...) {c06_id<__VA_ARGS__>}, {c06_id<__VA_ARGS__ const>}, {c06_id<__VA_ARGS__ &>}, {c06_id<__VA_ARGS__ const &>}, {c06_id<__VA_ARGS__ &&>}, {c06_id<__VA_ARGS__ *>}, {c06_id<__VA_ARGS__ const *>}, {c06_id<__VA_ARGS__ *const>}, {c06_id<__VA_ARGS__ const *const>}, {c06_id<__VA_ARGS__ **>}, {c06_id<__VA_ARGS__ const *const *>}, {c06_id<__VA_ARGS__[3]>}, {c06_id<__VA_ARGS__ *&>},
#define C06_PLAIN(...) {c06_id<__VA_ARGS__>},
#define C06_DECAY(...) c06_id<facts::decayed<__VA_ARGS__>>,

// what a module exports
struct C06_Module {
    C06_Entry const *entries; int n;
    rtti::variant (*make)(int kind, int v, bool ref);
    bool (*check)(int kind, rtti::variant const &, int v);
    rtti::MetaType_ID (*hidden)();          // a type of the same name in an anonymous namespace of every module
};
inline std::string c06_str(int v) { return std::string((size_t)(v % 40), 'q') + std::to_string(v); }
inline int g_c06_ref; 
static rtti::variant c06_make(int kind, int v, bool)
{
    switch (kind) {
    case 0: return rtti::variant{v};
    case 1: return rtti::variant{c06_str(v)};
    case 2: return rtti::variant{m1::X{v}};
    case 3: { int a[3] = {v, v + 1, v + 2}; return rtti::variant{a}; }
    case 4: return rtti::variant{std::make_shared<int>(v)};
    default: return rtti::variant{std::vector<int>(3, v)};
    }
}
static bool c06_check(int kind, rtti::variant const &x, int v)
{
    switch (kind) {
    case 0: return x.is<int>() && !x.is<long>() && x.to<int>() == v && x == v;
    case 1: return x.is<std::string>() && x.cref<std::string>() == c06_str(v) && x == c06_str(v);
    case 2: return x.is<m1::X>() && !x.is<m2::X>() && x.cref<m1::X>().a == v && x.data<m2::X>() == nullptr;
    case 3: return x.is<int[3]>() && x.is<int const *>() && x.to<int const *>()[2] == v + 2;
    case 4: return x.is<std::shared_ptr<int>>() && *x.to<std::shared_ptr<int>>() == v;
    default: return x.is<std::vector<int>>() && x.cref<std::vector<int>>() == std::vector<int>(3, v);
    }
}
#define C06_TABLE static C06_Entry const entries[] = {C06_BASE(C06_SHAPES) C06_EXTRA(C06_PLAIN)};
