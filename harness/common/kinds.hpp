// Storable content kinds, type-erased so that histories can mix them.
#pragma once
#include <common/ledger.hpp>
#include <rtti/variant.h>
#include <array>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <deque>
#include <optional>
#include <utility>

namespace kinds {

enum class Scoped : short { A, B, C };
enum Unscoped { UA, UB, UC };
union Un { int i; float f; };
struct Empty {};
inline bool operator==(Empty, Empty) { return true; }
struct Pod12 { int a, b, c; };
inline bool operator==(Pod12 const &l, Pod12 const &r) { return l.a == r.a && l.b == r.b && l.c == r.c; }
struct Pod16 { long a, b; };
struct Pod17 { char c[17]; };
struct Big { int a[60]; };
inline bool operator==(Big const &l, Big const &r) { return !memcmp(l.a, r.a, sizeof l.a); }
struct Mem { int x = 1, y = 2, z = 3; int f(int) { return 1; } int g(int) { return 2; } };
struct alignas(32) Over { double d[4]; };
struct MoveOnlyBig { std::unique_ptr<int> p; long pad[4]; };
template<size_t Pad> struct SelfT {      // knows its own address: may not be moved or copied as bytes
    SelfT *self; int v; char pad[Pad];
    explicit SelfT(int x = 0): self(this), v(x), pad{} {}
    SelfT(SelfT const &o) noexcept: self(this), v(o.get()), pad{} {}
    SelfT(SelfT &&o) noexcept: self(this), v(o.get()), pad{} {}
    SelfT &operator=(SelfT const &o) { v = o.get(); return *this; }
    int get() const { return self == this ? v : -1; }
};
using Self = SelfT<4>; using SelfBig = SelfT<44>;
struct VirtV { virtual ~VirtV() = default; virtual int who() const { return 1; } int v = 0; };

inline int g_ints[64];
inline int *g_ptrs[64];
inline int fn0(int a) { return a; }
inline int fn1(int a) { return a + 1; }
inline int fn2(int a) { return a + 2; }

template<class T> struct Tr;       // make / same
#define TR_SCALAR(T, EXPR) template<> struct Tr<T> { static T make(int v) { return EXPR; } static bool same(T const &x, int v) { return x == make(v); } };
TR_SCALAR(bool, (v & 1) != 0)
TR_SCALAR(char, (char)(v * 7))
TR_SCALAR(unsigned char, (unsigned char)(v * 5))
TR_SCALAR(short, (short)(v * 1009))
TR_SCALAR(int, v * 1000003)
TR_SCALAR(unsigned long, (unsigned long)v * 0x9e3779b97f4a7c15ul)
TR_SCALAR(long long, (long long)v * -77777777777ll)
TR_SCALAR(float, (float)v * 0.5f)
TR_SCALAR(double, v * 1.25)
TR_SCALAR(long double, (long double)v * 3.5L)
TR_SCALAR(Scoped, (Scoped)(v % 3))
TR_SCALAR(Unscoped, (Unscoped)((unsigned)v % 3))
TR_SCALAR(std::nullptr_t, ((void)v, nullptr))
TR_SCALAR(int *, &g_ints[(unsigned)v % 64])
TR_SCALAR(int const *, &g_ints[(unsigned)v % 64])
TR_SCALAR(int **, &g_ptrs[(unsigned)v % 64])
TR_SCALAR(void *, (void*)&g_ints[(unsigned)v % 64])
TR_SCALAR(char const *, (char const*)&g_ints[(unsigned)v % 64])
using Fn = int (*)(int);
inline Fn pick_fn(int v) { switch ((unsigned)v % 3) { case 0: return fn0; case 1: return fn1; default: return fn2; } }
TR_SCALAR(Fn, pick_fn(v))
using MemObj = int Mem::*;
inline MemObj pick_mo(int v) { switch ((unsigned)v % 3) { case 0: return &Mem::x; case 1: return &Mem::y; default: return &Mem::z; } }
TR_SCALAR(MemObj, pick_mo(v))
using MemFn = int (Mem::*)(int);
inline MemFn pick_mf(int v) { return v & 1 ? &Mem::f : &Mem::g; }
TR_SCALAR(MemFn, pick_mf(v))
template<> struct Tr<Un> { static Un make(int v) { Un u; u.i = v; return u; } static bool same(Un const &x, int v) { return x.i == v; } };
template<> struct Tr<Empty> { static Empty make(int) { return {}; } static bool same(Empty const &, int) { return true; } };
template<> struct Tr<Pod12> { static Pod12 make(int v) { return {v, ~v, v * 3}; } static bool same(Pod12 const &x, int v) { return x == make(v); } };
template<> struct Tr<Pod16> { static Pod16 make(int v) { return {v, ~(long)v}; } static bool same(Pod16 const &x, int v) { return x.a == v && x.b == ~(long)v; } };
template<> struct Tr<Pod17> { static Pod17 make(int v) { Pod17 p; for (int i = 0; i < 17; ++i) p.c[i] = (char)(v + i); return p; } static bool same(Pod17 const &x, int v) { auto m = make(v); return !memcmp(&x, &m, 17); } };
template<> struct Tr<Big> { static Big make(int v) { Big b; for (int i = 0; i < 60; ++i) b.a[i] = v * 31 + i; return b; } static bool same(Big const &x, int v) { return x == make(v); } };
template<> struct Tr<Over> { static Over make(int v) { Over o; for (int i = 0; i < 4; ++i) o.d[i] = v + i; return o; } static bool same(Over const &x, int v) { auto m = make(v); return !memcmp(&x, &m, sizeof m) && reinterpret_cast<uintptr_t>(&x) % 32 == 0; } };
template<> struct Tr<std::string> { static std::string make(int v) { return v & 1 ? std::string("s") + std::to_string(v) : std::string((size_t)(20 + (unsigned)v % 30), (char)('a' + (unsigned)v % 26)) + std::to_string(v); } static bool same(std::string const &x, int v) { return x == make(v); } };
template<> struct Tr<std::vector<int>> { static std::vector<int> make(int v) { std::vector<int> r; for (int i = 0; i <= (int)((unsigned)v % 5); ++i) r.push_back(v + i); return r; } static bool same(std::vector<int> const &x, int v) { return x == make(v); } };
template<> struct Tr<std::shared_ptr<int>> { static std::shared_ptr<int> make(int v) { return v % 4 == 3 ? nullptr : std::make_shared<int>(v); } static bool same(std::shared_ptr<int> const &x, int v) { return v % 4 == 3 ? !x : x && *x == v; } };
template<> struct Tr<std::unique_ptr<int>> { static std::unique_ptr<int> make(int v) { return v % 4 == 3 ? nullptr : std::make_unique<int>(v); } static bool same(std::unique_ptr<int> const &x, int v) { return v % 4 == 3 ? !x : x && *x == v; } };
template<> struct Tr<MoveOnlyBig> { static MoveOnlyBig make(int v) { return {std::make_unique<int>(v), {v, v, v, v}}; } static bool same(MoveOnlyBig const &x, int v) { return x.p && *x.p == v && x.pad[3] == v; } };
template<> struct Tr<std::function<int()>> { static std::function<int()> make(int v) { std::string s(30, 'x'); return [v, s] { return v + (int)s.size(); }; } static bool same(std::function<int()> const &x, int v) { return x && x() == v + 30; } };
template<> struct Tr<std::map<int, std::string>> { static std::map<int, std::string> make(int v) { return {{v, Tr<std::string>::make(v)}, {v + 1, ""}}; } static bool same(std::map<int, std::string> const &x, int v) { return x == make(v); } };
template<> struct Tr<std::pair<int, std::string>> { static std::pair<int, std::string> make(int v) { return {v, Tr<std::string>::make(v)}; } static bool same(std::pair<int, std::string> const &x, int v) { return x == make(v); } };
template<> struct Tr<std::array<int, 3>> { static std::array<int, 3> make(int v) { return {v, v + 1, v + 2}; } static bool same(std::array<int, 3> const &x, int v) { return x == make(v); } };
template<> struct Tr<std::optional<int>> { static std::optional<int> make(int v) { return v % 3 ? std::optional<int>(v) : std::nullopt; } static bool same(std::optional<int> const &x, int v) { return x == make(v); } };
template<size_t P> struct Tr<SelfT<P>> { static SelfT<P> make(int v) { return SelfT<P>(v); } static bool same(SelfT<P> const &x, int v) { return x.get() == v; } };
template<> struct Tr<VirtV> { static VirtV make(int v) { VirtV x; x.v = v; return x; } static bool same(VirtV const &x, int v) { return x.v == v && x.who() == 1; } };
template<size_t S, size_t A, unsigned C> struct Tr<led::Obj<S, A, C>> { static led::Obj<S, A, C> make(int v) { return led::Obj<S, A, C>(v); } static bool same(led::Obj<S, A, C> const &x, int v) { return x.get() == v; } };
// arrays
template<class T> constexpr int elements_of() { if constexpr (std::is_array_v<T>) return (int)std::extent_v<T> * elements_of<std::remove_extent_t<T>>(); else return 1; }
template<class E, size_t N> struct Tr<E[N]> {          // the elements of #v are #v, #(v + 1), ... in memory order
    static bool same(E const (&x)[N], int v) { for (size_t i = 0; i < N; ++i) if (!Tr<E>::same(x[i], v + (int)i * elements_of<E>())) return false; return true; }
};

enum : unsigned { CP = 1, ARR = 2, TRACK = 4, CONSTVAL = 8, CTHROW = 16, ANYTHROW = 32, NOSELF = 64 };

struct Kind {
    char const *name; unsigned flags;
    rtti::MetaType_ID (*id)();
    rtti::variant (*make)(int v, int form);            // forms: 0 rvalue, 1 lvalue, 2 const lvalue
    void (*assign)(rtti::variant &dst, int v, int form);
    char const *(*verify)(rtti::variant const &cv, rtti::variant &mv, int v);   // nullptr or what is wrong
    bool (*is)(rtti::variant const &);
    void (*mutate)(rtti::variant &, int v);
    void (*convert)(rtti::variant &);                  // convert to its own type (not for arrays)
    bool (*try_convert)(rtti::variant &);
    void (*own)(rtti::variant &, int form);            // assign its own content: 0 moved, 1 lvalue, 2 const lvalue
};

template<class T> struct K {
    using R = rtti::variant;
    static rtti::MetaType_ID id() { return rtti::metaTypeId<T>(); }
    template<class E, size_t N, class F, size_t... I> static auto with_array(int v, F &&f, std::index_sequence<I...>)
    { E a[N] = {Tr<E>::make(v + (int)I)...}; return f(a); }
    template<class A> static void fill(A &a, int v)           // as Tr<A>::same expects it
    {
        if constexpr (std::is_array_v<A>) for (size_t i = 0; i < std::extent_v<A>; ++i) fill(a[i], v + (int)i * elements_of<std::remove_extent_t<A>>());
        else a = Tr<A>::make(v);
    }
    template<class F> static auto with(int v, F &&f)
    {
        if constexpr (std::is_array_v<T>) {
            using E = std::remove_extent_t<T>;
            if constexpr (std::is_array_v<E>) { T a; fill(a, v); return f(a);
            } else
                return with_array<E, std::extent_v<T>>(v, std::forward<F>(f), std::make_index_sequence<std::extent_v<T>>{});
        } else { T x = Tr<T>::make(v); return f(x); }
    }
    static constexpr bool Copy = std::is_copy_constructible_v<std::remove_all_extents_t<T>>;
    static R make(int v, int form)
    {
        return with(v, [&](T &x) -> R {
            if constexpr (Copy) {
                if (form == 1) return R(x);
                if (form == 2) return R(static_cast<T const &>(x));
            }
            return R(std::move(x));
        });
    }
    static void assign(R &d, int v, int form)
    {
        with(v, [&](T &x) {
            if constexpr (Copy) {
                if (form == 1) { d = x; return 0; }
                if (form == 2) { d = static_cast<T const &>(x); return 0; }
            }
            d = std::move(x); return 0;
        });
    }
    static bool is(R const &v) { return v.is<T>(); }
    static char const *verify(R const &cv, R &mv, int v)
    {
        if (cv.empty() || !static_cast<bool>(cv)) return "reported empty";
        if (!cv.is<T>() || !mv.is<T>()) return "is<T> is false";
        if (cv.typeId() != rtti::metaTypeId<T>()) return "typeId differs from the stored type";
        if constexpr (std::is_array_v<T>) {
            using E = std::remove_extent_t<T>;
            if (!Tr<T>::same(mv.ref<T>(), v)) return "ref<T> shows another value";
            if (!Tr<T>::same(cv.ref<T const>(), v)) return "const ref shows another value";
            if constexpr (!std::is_array_v<E>) {
                auto const *p = cv.to<E const *>();
                if (!p || p != &cv.ref<T const>()[0]) return "to<pointer> does not point to the stored array";
            }
        } else {
            if (!Tr<T>::same(cv.ref<T>(), v)) return "const ref<T> shows another value";
            if (!Tr<T>::same(mv.ref<T>(), v)) return "ref<T> shows another value";
            if (&mv.ref<T>() != &cv.cref<T>()) return "ref and cref designate different objects";
            auto *p = cv.data<T>(); if (p != &cv.ref<T>()) return "data<T> does not point to the stored value";
            if (reinterpret_cast<uintptr_t>(p) % alignof(T)) return "stored value is misaligned";
            if constexpr (Copy) if (!Tr<T>::same(cv.to<T>(), v)) return "to<T> yields another value";
        }
        return nullptr;
    }
    static void mutate(R &d, int v)
    {
        if constexpr (std::is_array_v<T>) {
            using E = std::remove_extent_t<T>; auto &r = d.ref<T>();
            if constexpr (std::is_array_v<E>) { fill(r, v);
            } else for (size_t i = 0; i < std::extent_v<T>; ++i) r[i] = Tr<E>::make(v + (int)i);
        } else d.ref<T>() = Tr<T>::make(v);
    }
    static void convert(R &d) { if constexpr (!std::is_array_v<T> && Copy) d.convert<T>(); }
    static bool try_convert(R &d) { if constexpr (!std::is_array_v<T> && Copy) return d.tryConvert<T>(); else return false; }
    static void own(R &d, int form)
    {
        auto &r = d.ref<T>();
        if constexpr (Copy) {
            if (form == 1) { d = r; return; }
            if (form == 2) { d = static_cast<T const &>(r); return; }
        }
        d = std::move(r);
    }
    static Kind kind(char const *name, unsigned extra = 0)
    { return Kind{name, (Copy ? CP : 0u) | (std::is_array_v<T> ? ARR : 0u) | extra, id, make, assign, verify, is, mutate, convert, try_convert, own}; }
};

} // namespace kinds
