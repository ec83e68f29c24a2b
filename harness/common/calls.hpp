// Reflected functions with generated signatures, and arguments of every form to call them with (C12, C13).
#pragma once
#include <pbt.hpp>
#include <rtti/metadefine.h>
#include <rtti/metaerror.h>
#include <rtti/variant.h>
#include <cstring>
#include <functional>
#include <memory>
#include <string>
#include <vector>

namespace calls {
using rtti::variant; using rtti::argument;

// ---- the types involved
enum class E : short { A, B, C };
struct Big { long a[5]; };
struct Trk {
    static inline long live = 0; int v;           // live: objects not moved from (what a move leaves behind is C02's subject)
    explicit Trk(int x): v(x) { ++live; }
    Trk(Trk const &o): v(o.v) { live += v != -1; }
    Trk(Trk &&o) noexcept: v(o.v) { o.v = -1; }
    Trk &operator=(Trk const &o) { live += (o.v != -1) - (v != -1); v = o.v; return *this; }
    ~Trk() { live -= v != -1; v = -1; }
    friend bool operator==(Trk const &a, Trk const &b) { return a.v % 3 == b.v % 3; }       // equal values differ
};
struct MO {
    std::unique_ptr<int> p;
    explicit MO(int x): p(new int(x)) {}
    MO(MO &&) = default; MO &operator=(MO &&) = default;
};
struct Boom { int id; };
struct Rec { void const *addr; long fp; bool ok; };
struct Call { int id; void const *self; std::vector<Rec> rec; };
struct Env { bool boom = false; std::vector<Call> calls; };
inline Env env;
long body(int id, void const *self, std::vector<Rec> rec);      // logs the call; the value everything the callee does is derived from
template<class P> Rec note_param(std::remove_reference_t<P> &p);
template<class R> struct Ret;

struct Pad { long pad[3] = {1, 2, 3}; virtual ~Pad() {} };
struct Base {
    DECLARE_CLASSINFO
public:
    int b; explicit Base(int x = 0): b(x) {} virtual ~Base() {} Base(Base const &) = default; Base &operator=(Base const &) = default;
    friend bool operator==(Base const &a, Base const &b) { return a.b % 2 == b.b % 2; }
    template<int Id, class R, class... P> R m(P... p) { long h = body(Id, this, {note_param<P>(p)...}); b += 1 + (int)(h & 63); return Ret<R>::get(h); }
    template<int Id, class R, class... P> R mc(P... p) const { long h = body(Id, this, {note_param<P>(p)...}); return Ret<R>::get(h); }
};
struct Derived: Pad, Base {
    DECLARE_CLASSINFO
public:
    int d; explicit Derived(int x = 0): Base(x * 3), d(x) {} Derived(Derived const &) = default; Derived &operator=(Derived const &) = default;
    template<int Id, class R, class... P> R n(P... p) { long h = body(Id, this, {note_param<P>(p)...}); d += 1 + (int)(h & 63); return Ret<R>::get(h); }
    template<int Id, class R, class... P> R nc(P... p) const noexcept(false) { long h = body(Id, this, {note_param<P>(p)...}); return Ret<R>::get(h); }
};
struct Other { int o; explicit Other(int x = 0): o(x) {} };          // registered, related to nothing
struct Unreg { int u; explicit Unreg(int x = 0): u(x) {} };          // not registered

inline int g_ints[16]; inline std::vector<Base> g_bases; inline std::vector<Derived> g_derived;
inline void pools() { if (g_bases.empty()) { for (int i = 0; i < 8; ++i) { g_bases.emplace_back(i); g_derived.emplace_back(i); } } }
template<class T> struct V;
template<class T> T *pool(int s);
template<> inline int *pool<int>(int s) { return &g_ints[(unsigned)s % 16]; }
template<> inline Base *pool<Base>(int s) { pools(); return s & 1 ? &g_derived[(unsigned)s % 8] : &g_bases[(unsigned)s % 8]; }
template<> inline Derived *pool<Derived>(int s) { pools(); return &g_derived[(unsigned)s % 8]; }
#define CALLS_SCALAR(T, MAKE, BUMP) template<> struct V<T> { static T make(int s) { return MAKE; } static long fp(T const &x) { return (long)x; } static void bump(T &x) { BUMP; } };
CALLS_SCALAR(int, s * 7 + 1, x += 1000)
CALLS_SCALAR(long, s * 70001l + 3, x += 1000)
template<> struct V<double> {                                          // by its bits: two zeroes
    static double make(int s) { return s % 5 == 4 ? s & 1 ? 0.0 : -0.0 : s * 5.0 + 2; } static long fp(double const &x) { long r; std::memcpy(&r, &x, sizeof r); return r; } static void bump(double &x) { x += 1000; }
};
CALLS_SCALAR(E, (E)(s % 3), x = (E)(((int)x + 1) % 3))
template<> struct V<std::string> {
    static std::string make(int s) { return (s & 1 ? "a string that does not fit in place " : "s") + std::to_string(s); }
    static long fp(std::string const &x) { return (long)std::hash<std::string>{}(x); } static void bump(std::string &x) { x += "!"; }
};
template<> struct V<Big> { static Big make(int s) { return Big{{s, s + 1, s + 2, s + 3, s + 4}}; } static long fp(Big const &x) { long h = 0; for (long e : x.a) h = h * 31 + e; return h; } static void bump(Big &x) { x.a[3] += 5; } };
template<> struct V<Trk> { static Trk make(int s) { return Trk{s}; } static long fp(Trk const &x) { return x.v; } static void bump(Trk &x) { x.v += 1000; } };
template<> struct V<MO> { static MO make(int s) { return MO{s}; } static long fp(MO const &x) { return x.p ? *x.p : -1; } static void bump(MO &x) { *x.p += 1000; } };
template<> struct V<Base> { static Base make(int s) { return Base{s}; } static long fp(Base const &x) { return x.b; } static void bump(Base &x) { x.b += 1000; } };
template<> struct V<Derived> { static Derived make(int s) { return Derived{s}; } static long fp(Derived const &x) { return x.b * 65536l + x.d; } static void bump(Derived &x) { x.b += 1000; x.d += 500; } };
template<> struct V<Other> { static Other make(int s) { return Other{s}; } static long fp(Other const &x) { return x.o; } static void bump(Other &x) { x.o += 1000; } };
template<class T> struct V<T *> {
    using N = std::remove_const_t<T>;
    static T *make(int s) { return pool<N>(s); } static long fp(T *const &x) { return (long)x; } static void bump(T *&x) { x = pool<N>((int)((long)x / 8 % 8) + 2); }
};

// ---- the callee's side
inline long hash_of(int id, std::vector<Rec> const &rec) { unsigned long h = (unsigned long)id; for (auto &r : rec) h = h * 1000003 + (unsigned long)r.fp; return (long)(h & 0x7fffffff); }
inline long body(int id, void const *self, std::vector<Rec> rec)
{
    long h = hash_of(id, rec);
    env.calls.push_back(Call{id, self, std::move(rec)});
    if (env.boom) throw Boom{id};
    return h;
}
template<class P> Rec note_param(std::remove_reference_t<P> &p)
{
    using T = std::decay_t<P>; Rec r{std::is_reference_v<P> ? &p : nullptr, V<T>::fp(p), true};
    if constexpr (!std::is_const_v<std::remove_reference_t<P>>) {
        if constexpr (std::is_rvalue_reference_v<P>) { T stolen(std::move(p)); r.ok = V<T>::fp(stolen) == r.fp; }
        else V<T>::bump(p);
    }
    return r;
}
template<class T> T &ret_object() { static T x = V<T>::make(5); return x; }
template<class R> struct Ret {
    using T = std::decay_t<R>;
    static R get(long h)
    {
        if constexpr (std::is_reference_v<R>) return ret_object<T>();
        else return V<T>::make((int)(h % 1000));
    }
    static bool check(variant &v, long h)
    {
        if (v.empty()) return false;
        if constexpr (std::is_reference_v<R>) {
            bool mut = !std::is_const_v<std::remove_reference_t<R>>;
            return v.data<T>() == (mut ? &ret_object<T>() : nullptr) && &v.cref<T>() == &ret_object<T>() && v.is<T &>() == mut && v.is<T const &>();
        } else {
            auto *p = const_cast<variant const &>(v).data<T>();
            return p && V<T>::fp(*p) == V<T>::fp(V<T>::make((int)(h % 1000))) && (std::is_const_v<R> || v.typeId() == rtti::metaTypeId<T>());
        }
    }
};
template<> struct Ret<void> { static void get(long) {} static bool check(variant &v, long) { return v.empty(); } };

// ---- how a value of type A can serve as a T
struct Rel {
    enum Kind { NONE, SAME, UP, CONV, PTR, PTRUP } kind = NONE;
    bool (*fp)(void const *a, long &fp) = nullptr;        // fingerprint of the T made from *a; false: not possible for this value
    void *(*sub)(void *a) = nullptr;                      // the T inside an A (SAME, UP)
    void (*bump)(void *a) = nullptr;
};
template<class A, class T> struct Conv { static constexpr bool exists = false; };
template<> struct Conv<int, double> { static constexpr bool exists = true; static double run(int a) { return a + 0.0; } };
template<> struct Conv<double, int> { static constexpr bool exists = true; static int run(double a) { return (int)a; } };
template<> struct Conv<long, int> { static constexpr bool exists = true; static int run(long a) { return (int)(a + 1); } };
template<> struct Conv<int, std::string> { static constexpr bool exists = true; static std::string run(int a) { return "number " + std::to_string(a); } };
template<> struct Conv<std::string, int> { static constexpr bool exists = true; static int run(std::string const &a) { return (int)a.size(); } };
template<> struct Conv<E, int> { static constexpr bool exists = true; static int run(E a) { return (int)a + 40; } };
template<> struct Conv<int, Trk> { static constexpr bool exists = true; static Trk run(int a) { return Trk{a + 1}; } };
template<> struct Conv<Trk, std::string> { static constexpr bool exists = true; static std::string run(Trk const &a) { return "tracked " + std::to_string(a.v); } };
template<> struct Conv<Trk, Big> { static constexpr bool exists = true; static Big run(Trk const &a) { return Big{{a.v, 1, 1, 1, 1}}; } };
template<> struct Conv<Other, Base> { static constexpr bool exists = true; static Base run(Other const &a) { return Base{a.o + 9}; } };
template<> struct Conv<std::string, Derived> { static constexpr bool exists = true; static Derived run(std::string const &a) { return Derived{(int)a.size()}; } };
template<> struct Conv<long, int const *> { static constexpr bool exists = false; };
template<class A, class T> Rel make_rel()
{
    Rel r;
    if constexpr (std::is_same_v<A, T> || (std::is_class_v<A> && std::is_class_v<T> && std::is_base_of_v<T, A>)) {
        r.kind = std::is_same_v<A, T> ? Rel::SAME : Rel::UP;
        r.fp = [](void const *a, long &f) { f = V<T>::fp(*static_cast<A const *>(a)); return true; };
        r.sub = [](void *a) -> void * { return static_cast<T *>(static_cast<A *>(a)); };
        r.bump = [](void *a) { V<T>::bump(*static_cast<A *>(a)); };
    } else if constexpr (Conv<A, T>::exists) {
        r.kind = Rel::CONV;
        r.fp = [](void const *a, long &f) { f = V<T>::fp(Conv<A, T>::run(*static_cast<A const *>(a))); return true; };
    } else if constexpr (std::is_pointer_v<A> && std::is_pointer_v<T>) {
        using PA = std::remove_pointer_t<A>; using PT = std::remove_pointer_t<T>; using CA = std::remove_const_t<PA>; using CT = std::remove_const_t<PT>;
        if constexpr (!std::is_const_v<PA> || std::is_const_v<PT>) {
            if constexpr (std::is_same_v<CA, CT> || std::is_base_of_v<CT, CA>) {
                r.kind = std::is_same_v<CA, CT> ? Rel::PTR : Rel::PTRUP;
                r.fp = [](void const *a, long &f) { T t = *static_cast<A const *>(a); f = (long)t; return true; };
            } else if constexpr (std::is_base_of_v<CA, CT>) {
                r.kind = Rel::PTRUP;
                r.fp = [](void const *a, long &f) { T t = dynamic_cast<T>(*static_cast<A const *>(a)); f = (long)t; return t != nullptr; };
            }
        }
    }
    return r;
}
template<class... T> struct L {};
using Args = L<int, long, double, std::string, E, Big, Trk, MO, Base, Derived, Other, int *, int const *, Base *, Base const *, Derived *, Derived const *>;
using Params = L<int, double, std::string, E, Big, Trk, MO, Base, Derived, int *, int const *, Base *, Base const *, Derived *>;
template<class T, class... X> constexpr int index_in(L<X...>) { int i = 0, r = -1; ((std::is_same_v<T, X> ? (void)(r = i++) : (void)++i), ...); return r; }
template<class A, class... T> std::vector<Rel> rel_row(L<T...>) { return {make_rel<A, T>()...}; }
template<class... A> std::vector<std::vector<Rel>> rel_table(L<A...>) { return {rel_row<A>(Params{})...}; }
inline Rel const &rel(int a, int t) { static auto const table = rel_table(Args{}); return table[(size_t)a][(size_t)t]; }
template<class A, class... T> void convs_of(L<T...>) { ([] { if constexpr (Conv<A, T>::exists) rtti::MetaType::registerConverter(&Conv<A, T>::run); }(), ...); }
template<class... A> void register_convs(L<A...>) { (convs_of<A>(Params{}), ...); }

// ---- arguments
enum Form { LV, CLV, RV, CRV, VLV, VCLV, VRV, VCRV, RLV, RCLV, RRV, KLV, KCLV, KRV, EMPTY, W, WRV, KW, FORMS };
inline char const *form_name(int f)
{ static char const *n[] = {"lvalue", "const lvalue", "rvalue", "const rvalue", "variant", "const variant", "variant rvalue", "const variant rvalue", "variant of ref", "const variant of ref", "rvalue variant of ref", "variant of cref", "const variant of cref", "rvalue variant of cref", "empty variant", "ref wrapper", "ref wrapper rvalue", "cref wrapper"}; return n[f]; }
inline bool is_lvalue(int f) { switch (f) { case LV: case CLV: case VLV: case VCLV: case RLV: case RCLV: case KLV: case KCLV: case EMPTY: return true; default: return false; } }
inline bool is_const(int f) { switch (f) { case CLV: case CRV: case VCLV: case VCRV: case RCLV: case KLV: case KCLV: case KRV: case KW: return true; default: return false; } }
struct Holder {                      // owns one argument object
    int type = 0, form = 0, seed = 0; long fp0 = 0;
    void *obj = nullptr, *own = nullptr;      // the object the argument shows, and one of its own
    std::function<void()> del; variant v; std::unique_ptr<argument> arg; std::function<long()> fp; std::function<void *(int)> twin; std::function<void(void *)> del_twin;
    std::shared_ptr<void> wrap;
    ~Holder() { arg.reset(); v.clear(); wrap.reset(); if (del) del(); }
};
// calls f with the argument expression itself
template<class A, class F> decltype(auto) with_expr(Holder &h, A &x, F &&f)
{
    variant &v = h.v;
    switch (h.form) {
    default: return f(x);
    case CLV: return f(const_cast<A const &>(x));
    case RV: return f(std::move(x));
    case CRV: return f(std::move(const_cast<A const &>(x)));
    case VLV: case RLV: case KLV: case EMPTY: return f(v);
    case VCLV: case RCLV: case KCLV: return f(const_cast<variant const &>(v));
    case VRV: case RRV: case KRV: return f(std::move(v));
    case VCRV: return f(std::move(const_cast<variant const &>(v)));
    case W: case WRV: { auto w = std::make_shared<std::reference_wrapper<A>>(x); h.wrap = w; if (h.form == W) return f(*w); return f(std::move(*w)); }
    case KW: { auto w = std::make_shared<std::reference_wrapper<A const>>(x); h.wrap = w; return f(*w); }
    }
}
template<class A> void hold(Holder &h)
{
    A *x = new A(V<A>::make(h.seed)); h.del = [x] { delete x; }; h.obj = h.own = x;
    switch (h.form) {
    case VLV: case VCLV: case VRV: case VCRV: h.v = variant{V<A>::make(h.seed)}; h.obj = const_cast<A *>(const_cast<variant const &>(h.v).data<A>()); break;
    case RLV: case RCLV: case RRV: h.v = variant{std::ref(*x)}; break;
    case KLV: case KCLV: case KRV: h.v = variant{std::cref(*x)}; break;
    default: break;
    }
    h.fp = [&h] { return V<A>::fp(*static_cast<A *>(h.obj)); }; h.fp0 = h.fp();
    h.twin = [&h](int s) -> void * { return new A(V<A>::make(s)); }; h.del_twin = [](void *p) { delete static_cast<A *>(p); };
}
template<class A> void wrap_arg(Holder &h) { A &x = *static_cast<A *>(h.own); with_expr<A>(h, x, [&](auto &&e) { h.arg.reset(new argument(std::forward<decltype(e)>(e))); }); }
struct Kind { void (*hold)(Holder &); void (*wrap)(Holder &); char const *name; bool copyable; };
template<class... A> std::vector<Kind> kind_list(L<A...>) { return {Kind{hold<A>, wrap_arg<A>, nullptr, std::is_copy_constructible_v<A>}...}; }
inline std::vector<Kind> const &kinds() { static auto const k = kind_list(Args{}); return k; }
inline char const *arg_name(int a) { static char const *n[] = {"int", "long", "double", "string", "enum", "Big", "Trk", "MO", "Base", "Derived", "Other", "int*", "int const*", "Base*", "Base const*", "Derived*", "Derived const*"}; return n[a]; }

// ---- parameters
enum PKind { BYVAL, BYCVAL, CREF, LREF, RREF, CRREF };
struct Param { int type; PKind kind; };
template<class P> Param make_param()
{
    using N = std::remove_reference_t<P>; constexpr bool k = std::is_const_v<N>;
    return {index_in<std::remove_const_t<N>>(Params{}), std::is_lvalue_reference_v<P> ? (k ? CREF : LREF) : std::is_rvalue_reference_v<P> ? (k ? CRREF : RREF) : k ? BYCVAL : BYVAL};
}
inline char const *param_name(Param p) { static char const *n[] = {"int", "double", "string", "enum", "Big", "Trk", "MO", "Base", "Derived", "int*", "int const*", "Base*", "Base const*", "Derived*"}; return n[p.type]; }
inline char const *pkind_name(PKind k) { static char const *n[] = {"", " const", " const&", "&", "&&", " const&&"}; return n[k]; }
constexpr int MO_PARAM = 6, MO_ARG = 7;

enum Verdict { OK, REFUSE, EITHER };
struct Expect { Verdict v; long fp; void *addr; int after; };      // after: 0 unchanged, 1 bumped, 2 any
inline Expect expect(Param p, Holder const &h)
{
    Expect no{REFUSE, 0, nullptr, 0}, open{EITHER, 0, nullptr, 2};
    if (h.form == EMPTY) return no;
    auto const &r = rel(h.type, p.type); long fp = 0;
    if (r.kind == Rel::NONE || !r.fp(h.obj, fp)) return no;
    bool lv = is_lvalue(h.form), k = is_const(h.form), wrapper = h.form >= W;
    switch (p.kind) {
    case BYVAL: case BYCVAL: return p.type == MO_PARAM ? no : Expect{OK, fp, nullptr, 0};
    case CREF: return {OK, fp, nullptr, 0};
    case LREF:
        if (wrapper) return open;
        if (!lv || k) return no;
        if (r.kind == Rel::PTRUP) return open;        // a Derived* is not a Base*&, but the library may say so
        if (r.kind != Rel::SAME && r.kind != Rel::UP) return no;
        return {OK, fp, r.sub(h.obj), 1};
    default:
        if (wrapper || h.form == VCRV) return open;
        if (lv) return no;
        if (p.type == MO_PARAM && k) return no;
        return {OK, fp, nullptr, k || p.kind == CRREF ? 0 : 2};
    }
}

// ---- functions
struct Sig {
    int id; std::vector<Param> params; bool (*check)(variant &, long); char const *result;
    void (*define)(); rtti::MetaMethod const *free = nullptr, *stat = nullptr, *m = nullptr, *mc = nullptr, *n = nullptr, *nc = nullptr;
};
inline std::vector<Sig> &sigs() { static std::vector<Sig> s; return s; }
template<int Id, class R, class... P> struct Fn {
    static R free(P... p) { long h = body(Id, nullptr, {note_param<P>(p)...}); return Ret<R>::get(h); }
    static R nothrow(P... p) noexcept(sizeof...(P) > 20) { long h = body(Id, nullptr, {note_param<P>(p)...}); return Ret<R>::get(h); }
};
template<int Id, class R, class... P> void define_sig()
{
    auto s = std::to_string(Id);
    rtti::global_define()._method("f" + s, &Fn<Id, R, P...>::free)
        .template _class<Base>("Base")._method("s" + s, &Fn<Id, R, P...>::nothrow)._method("m" + s, &Base::m<Id, R, P...>)._method("mc" + s, &Base::mc<Id, R, P...>)._end()
        .template _class<Derived>("Derived")._method("n" + s, &Derived::n<Id, R, P...>)._method("nc" + s, &Derived::nc<Id, R, P...>)._end();
}
template<int Id, class R, class... P> int add_sig(char const *rname)
{ sigs().push_back(Sig{Id, {make_param<P>()...}, Ret<R>::check, rname, define_sig<Id, R, P...>}); return 0; }

inline void setup()
{
    static bool done = false; if (done) return; done = true;
    pools(); ret_object<Trk>(); register_convs(Args{});
    rtti::global_define()._class<Base>("Base")._end()._class<Derived>("Derived")._base<Base>()._end()._class<Other>("Other")._end();
    auto *g = rtti::MetaNamespace::global(); auto *b = g->getClass("Base"), *d = g->getClass("Derived");
    for (auto &s : sigs()) {
        s.define(); auto i = std::to_string(s.id);
        s.free = g->getMethod("f" + i); s.stat = b->getMethod("s" + i); s.m = b->getMethod("m" + i); s.mc = b->getMethod("mc" + i); s.n = d->getMethod("n" + i); s.nc = d->getMethod("nc" + i);
    }
}

// ---- calling
using ArgVec = std::vector<std::unique_ptr<Holder>>;
template<class Call> variant spread(Call &&call, ArgVec &a, size_t first = 0)
{
#define CA(i) std::move(*a[first + i]->arg)
    switch (a.size() - first) {
    case 0: return call();
    case 1: return call(CA(0));
    case 2: return call(CA(0), CA(1));
    case 3: return call(CA(0), CA(1), CA(2));
    case 4: return call(CA(0), CA(1), CA(2), CA(3));
    case 5: return call(CA(0), CA(1), CA(2), CA(3), CA(4));
    case 6: return call(CA(0), CA(1), CA(2), CA(3), CA(4), CA(5));
    case 7: return call(CA(0), CA(1), CA(2), CA(3), CA(4), CA(5), CA(6));
    case 8: return call(CA(0), CA(1), CA(2), CA(3), CA(4), CA(5), CA(6), CA(7));
    case 9: return call(CA(0), CA(1), CA(2), CA(3), CA(4), CA(5), CA(6), CA(7), CA(8));
    default: return call(CA(0), CA(1), CA(2), CA(3), CA(4), CA(5), CA(6), CA(7), CA(8), CA(9));
    }
#undef CA
}
enum Outcome { RETURNED, CASTERR, INVOKEERR, RUNTIMEERR, THREW };
inline char const *outcome_name(Outcome o) { static char const *n[] = {"returned", "was refused with a cast error", "was refused with invoke_error", "was refused with runtime_error", "threw"}; return n[o]; }
template<class F> Outcome attempt(F &&f)
{
    try { f(); return RETURNED; }
    catch (Boom const &) { return THREW; }
    catch (rtti::bad_cast const &) { return CASTERR; }
    catch (rtti::invoke_error const &) { return INVOKEERR; }
    catch (rtti::runtime_error const &) { return RUNTIMEERR; }
}

// draws an argument for a parameter
inline std::unique_ptr<Holder> draw_arg(pbt::Ctx &c, Param p, bool wantOk)
{
    for (int tries = 0;; ++tries) {
        std::unique_ptr<Holder> h{new Holder};
        auto const n = kinds().size(); std::vector<int> rels;
        for (size_t a = 0; a < n; ++a) if (rel((int)a, p.type).kind != Rel::NONE) rels.push_back((int)a);
        h->type = c.chance(1, 8) ? (int)c.draw(n) : rels[c.draw(rels.size())];
        if (wantOk && tries >= 6) {            // a plain argument of the very type
            for (size_t a = 0; a < n; ++a) if (rel((int)a, p.type).kind == Rel::SAME) h->type = (int)a;
            h->form = p.kind == RREF || p.kind == CRREF ? RV : LV;
        } else h->form = (int)c.draw(FORMS);
        if (h->form == KRV && c.chance(1, 2)) h->form = RV;
        h->seed = (int)c.draw(12);
        kinds()[(size_t)h->type].hold(*h);
        if (!wantOk || tries >= 7 || expect(p, *h).v == OK) { kinds()[(size_t)h->type].wrap(*h); return h; }
    }
}
inline std::string describe(Param p, Holder const &h) { return std::string(arg_name(h.type)) + "#" + std::to_string(h.seed) + " (" + form_name(h.form) + ") for a " + param_name(p) + pkind_name(p.kind); }

// judges one finished call
struct Judge {
    pbt::Ctx &c; Sig const &sig; ArgVec &a; std::vector<Expect> ex; std::string what;
    Verdict all() const { Verdict r = OK; for (auto &e : ex) { if (e.v == REFUSE) return REFUSE; if (e.v == EITHER) r = EITHER; } return r; }
    void unchanged() { for (size_t i = 0; i < a.size(); ++i) c.check(a[i]->fp() == a[i]->fp0, "%s: argument %zu changed although the call was refused", what.c_str(), i); }
    // the call must not have happened
    void refused(Outcome o, bool castOnly = true)
    {
        c.check(o != RETURNED && o != THREW && env.calls.empty(), "%s %s%s", what.c_str(), outcome_name(o), env.calls.empty() ? "" : ", the function ran");
        bool mo = false; for (size_t i = 0; i < ex.size(); ++i) mo |= i < sig.params.size() && sig.params[i].type == MO_PARAM;
        if (castOnly && !mo) c.check(o == CASTERR, "%s %s instead of a cast error", what.c_str(), outcome_name(o));
        unchanged();
    }
    // the call happened exactly once; returns the callee's hash. `first`: the callee's parameter which belongs to a[0]
    long ran(Outcome o, void const *self, bool boom, variant &result)
    {
        c.check(o == (boom ? THREW : RETURNED), "%s %s", what.c_str(), outcome_name(o));
        c.check(env.calls.size() == 1 && env.calls[0].id == sig.id, "%s: %zu calls, the first to function %d", what.c_str(), env.calls.size(), env.calls.empty() ? -1 : env.calls[0].id);
        auto const &call = env.calls[0];
        c.check(call.self == self, "%s: ran on another object", what.c_str());
        c.check(call.rec.size() == ex.size(), "harness: arity");
        long h = hash_of(call.id, call.rec);
        for (size_t i = 0; i < ex.size(); ++i) {
            auto const &r = call.rec[i]; auto const &e = ex[i]; if (e.v == EITHER) continue;
            c.check(r.ok, "%s: parameter %zu could not be moved from", what.c_str(), i);
            c.check(r.fp == e.fp, "%s: parameter %zu received %ld, not %ld", what.c_str(), i, r.fp, e.fp);
            if (e.addr) c.check(r.addr == e.addr, "%s: parameter %zu is bound to another object", what.c_str(), i);
            if (e.after == 2) continue;
            long want = a[i]->fp0;
            if (e.after == 1) { void *t = a[i]->twin(a[i]->seed); rel(a[i]->type, sig.params[i].type).bump(t); want = fp_of(*a[i], t); a[i]->del_twin(t); }
            c.check(a[i]->fp() == want, "%s: after the call argument %zu is %ld, not %ld", what.c_str(), i, a[i]->fp(), want);
        }
        if (!boom) c.check(sig.check(result, h), "%s: wrong result (%s)", what.c_str(), sig.result);
        return h;
    }
    static long fp_of(Holder &h, void *t) { auto *o = h.obj; h.obj = t; long f = h.fp(); h.obj = o; return f; }
};
} // namespace calls
