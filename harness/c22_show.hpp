// Structural rendering of types, independent of the library's own names.
#pragma once
#include <rtti/typelist.h>
#include <string_view>
#include <rtti/typename.h>
#include <rtti/function_traits.h>
#include <rtti/signature.h>
#include <rtti/misc_traits.h>
#include <rtti/sfinae.h>
#include <algorithm>
#include <cstdlib>
#include <string>
#include <vector>

struct S0 {}; struct S1 { double a; int b; }; struct S2 { void *p[3]; }; namespace nsx { struct S3 { long x; }; } enum E0 { e0 }; enum class E1: char { a };
template<class ...> struct Box {};
template<class A, class B> struct Pair {};
template<class A, class B> struct PairF { using type = Pair<A, B>; };
template<class T> struct Boxed { using type = Box<T>; };
template<class> struct All: std::true_type {}; template<class> struct None_: std::false_type {};
template<class T> using Ptr = T*; template<class T> using Const = T const; template<class T> using Ref = T&; template<class T> using RRef = T&&; template<class T, int N> using Arr = T[N];
template<class R, class ...A> using Fn = R(A...); template<class R, class ...A> using FnN = R(A...) noexcept;
HAS_TYPE(inner_t)
HAS_METHOD(probe)

template<class T> struct Show;
template<class T> std::string show() { return Show<T>::get(); }
template<class ...T> std::string join() { std::string r; ((r += (r.empty() ? "" : ",") + show<T>()), ...); return r; }
#define NAME(T) template<> struct Show<T> { static std::string get() { return #T; } };
NAME(void) NAME(int) NAME(char) NAME(double) NAME(bool) NAME(unsigned int) NAME(long int) NAME(S0) NAME(S1) NAME(S2) NAME(nsx::S3) NAME(E0) NAME(E1)
#define WRAP(FORM, TEXT) template<class T> struct Show<FORM> { static std::string get() { return TEXT "(" + show<T>() + ")"; } };
WRAP(T*, "ptr") WRAP(T const, "const") WRAP(T volatile, "volatile") WRAP(T const volatile, "cv") WRAP(T&, "ref") WRAP(T&&, "rref")
template<class T, size_t N> struct Show<T[N]> { static std::string get() { return "arr(" + std::to_string(N) + "," + show<T>() + ")"; } };
template<class T, size_t N> struct Show<T const[N]> { static std::string get() { return "arr(" + std::to_string(N) + "," + show<T const>() + ")"; } };
template<class R, class ...A> struct Show<R(A...)> { static std::string get() { return "fn(" + show<R>() + ";" + join<A...>() + ")"; } };
template<class R, class ...A> struct Show<R(A...) noexcept> { static std::string get() { return "fn(" + show<R>() + ";" + join<A...>() + ";noexcept)"; } };
template<class ...T> struct Show<Box<T...>> { static std::string get() { return "Box(" + join<T...>() + ")"; } };
template<class ...T> struct Show<mpl::type_list<T...>> { static std::string get() { return "list(" + join<T...>() + ")"; } };
template<class ...T> struct Show<std::tuple<T...>> { static std::string get() { return "tuple(" + join<T...>() + ")"; } };
template<class A, class B> struct Show<Pair<A, B>> { static std::string get() { return "Pair(" + show<A>() + "," + show<B>() + ")"; } };
template<class T> std::string text(T v) { return std::to_string(v); }
template<class T> struct SetOf; template<class ...T> struct SetOf<mpl::type_list<T...>> { static std::string get() { std::vector<std::string> v{show<T>()...}; std::sort(v.begin(), v.end()); std::string r = "{"; for (auto &x : v) r += (r.size() > 1 ? " " : "") + x; return r + "}"; } };
template<class T> std::string as_set() { return SetOf<T>::get(); }
template<size_t ...I> std::string indexes(mpl::index_sequence<I...>) { std::string r; ((r += (r.empty() ? "" : " ") + std::to_string(I)), ...); return r; }

namespace c22 {
struct Entry { char const *group, *what, *expected; std::string (*get)(); bool nontrivial; };
struct Sig { char const *params; int n; std::string (*get)(std::string_view), (*list)(std::string_view); };
std::vector<Entry const*> &entries(); std::vector<Sig const*> &sigs();
struct Reg { Reg(Entry const *t, size_t n) { while (n--) entries().push_back(t++); } };
struct SigReg { SigReg(Sig const *t, size_t n) { while (n--) sigs().push_back(t++); } };
}
