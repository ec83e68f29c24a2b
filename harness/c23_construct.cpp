// C23: construction and destruction through a type descriptor behave like new and delete.
#include <pbt.hpp>
#include <rtti/metatype.h>
#include <common/ledger.hpp>
#include <deque>
#include <map>
#include <memory>
#include <string>
#include <vector>
using namespace led; using rtti::MetaType; using rtti::metaTypeId;
namespace {
constexpr int DFLT = 4242;
#define DEF_NO(N)      N() = delete;
#define DEF_YES(N)     N() noexcept: B(DFLT) {}
#define DEF_THROWS(N)  N(): B((maybe_throw(), DFLT)) {}
#define COPY_NO(N)     N(N const &) = delete;
#define COPY_YES(N)    N(N const &o) noexcept: B(o, 0) { ++copies(); }
#define COPY_THROWS(N) N(N const &o): B((maybe_throw(), o), 0) { ++copies(); }
#define MOVE_ABSENT(N)
#define MOVE_NO(N)     N(N &&) = delete;
#define MOVE_YES(N)    N(N &&o) noexcept: B(o, 0) { ++moves(); o.val = -1; }
#define MOVE_THROWS(N) N(N &&o): B((maybe_throw(), o), 0) { ++moves(); o.val = -1; }
enum Pol { NO, YES, THROWS, ABSENT };
struct Tag {};
#define CLS(D, C, M)                                                                                        \
    template<size_t S, size_t A> struct T_##D##_##C##_##M: ObjBase<S, A, 0> {                                \
        using B = ObjBase<S, A, 0>; static constexpr Pol d = D, c = C, m = M;                                \
        T_##D##_##C##_##M(int v, Tag): B(v) {}                                                               \
        DEF_##D(T_##D##_##C##_##M) COPY_##C(T_##D##_##C##_##M) MOVE_##M(T_##D##_##C##_##M)                   \
    };
#define EACH_M(D, C) CLS(D, C, ABSENT) CLS(D, C, NO) CLS(D, C, YES) CLS(D, C, THROWS)
#define EACH_C(D) EACH_M(D, NO) EACH_M(D, YES) EACH_M(D, THROWS)
EACH_C(NO) EACH_C(YES) EACH_C(THROWS)
// a class whose default constructor exists only implicitly, with a throwing member in the middle
template<size_t S, size_t A> struct Nest { T_YES_YES_YES<S, A> a; T_THROWS_THROWS_THROWS<S, A> b; static constexpr Pol d = THROWS, c = THROWS, m = THROWS; };
struct Virt: T_YES_YES_YES<16, 8> { Virt() = default; Virt(int v, Tag t): T_YES_YES_YES(v, t) {} Virt(Virt const &) = default; Virt(Virt &&) = default; virtual ~Virt() {} };

// how to look at the objects of a type
struct Type {
    std::string name; MetaType plain, constant; size_t size, align, n, per;       // n elements, each of per tracked objects
    Pol d, c, m; bool tracked;
    void *(*source)(int v); void (*drop)(void *);                                 // made and destroyed by the harness itself
    bool (*is)(void const *p, int v);                                             // the value is v (for a moved-from object: -1)
    bool (*is_default)(void const *p);                                            // as the default constructor leaves it
    bool (*moved)(void const *p, int v);                                           // its source has been moved from
    void (*set)(void *p, int v);
};
// the tracked values in an element
template<class E> auto objs(E &e) -> decltype((void)e.val, std::vector<int *>()) { return {&e.val}; }
template<size_t S, size_t A> std::vector<int *> objs(Nest<S, A> &e) { return {&e.a.val, &e.b.val}; }
template<class E> bool good(E &e) { return e.magic == 0x600dbeef && find(static_cast<typename E::B const *>(&e)); }
template<size_t S, size_t A> bool good(Nest<S, A> &e) { return good(e.a) && good(e.b); }
template<class E> void emplace(void *p, int v) { new (p) E(v, Tag{}); }
template<class T> using Elem = std::remove_all_extents_t<T>;
template<class T> constexpr size_t count = sizeof(T) / sizeof(Elem<T>);

int nth(int v, size_t i) { return v == DFLT || v == -1 ? v : v + 10000 * (int)i; }       // the value of element i of an array of value v
template<class T> bool each_is(void const *p, int v)
{
    using E = Elem<T>; auto *e = (E *)p;
    for (size_t i = 0; i < count<T>; ++i) { if (!good(e[i])) return false; for (int *x : objs(e[i])) if (*x != nth(v, i)) return false; }
    return true;
}
template<class T, bool Aggregate> Type tracked(char const *name, size_t per = 1)
{
    using E = Elem<T>; Type t{};
    t.name = name; t.plain = MetaType{metaTypeId<T>()}; t.constant = MetaType{metaTypeId<std::add_const_t<T>>()};
    t.size = sizeof(T); t.align = alignof(E); t.n = count<T>; t.per = per; t.d = E::d; t.c = E::c; t.m = E::m; t.tracked = true;
    t.source = [](int v) -> void * {
        auto *e = (E *)aligned_alloc(alignof(E) < 16 ? 16 : alignof(E), (sizeof(T) + 127) / 128 * 128);
        for (size_t i = 0; i < count<T>; ++i) { if constexpr (Aggregate) { new (e + i) E; for (int *x : objs(e[i])) *x = nth(v, i); } else emplace<E>(e + i, nth(v, i)); }
        return e;
    };
    t.drop = [](void *p) { auto *e = (E *)p; for (size_t i = 0; i < count<T>; ++i) e[i].~E(); free(p); };
    t.is = each_is<T>; t.is_default = [](void const *p) { return each_is<T>(p, DFLT); }; t.moved = [](void const *p, int) { return each_is<T>(p, -1); };
    t.set = [](void *p, int v) { auto *e = (E *)p; for (size_t i = 0; i < count<T>; ++i) for (int *x : objs(e[i])) *x = nth(v, i); };
    return t;
}
// ordinary types
enum class En: unsigned char { A };
struct Empty {};
struct Pod { long a[20]; };
struct alignas(128) Wide { long a[3]; };
union Un { int i; double d; };
struct Fixed { int const x; std::string s; Fixed(int v): x(v), s(80, 'f') {} };          // copies, has no default constructor
struct Ref { int &r; };
struct Init { int x = 7; std::string s{"an init string that is not small"}; double d[3] = {1, 2, 3}; };
struct Pinned { int x = 5; Pinned() = default; Pinned(Pinned const &) = delete; bool operator==(int v) const { return x == v; } };
struct Abstract { virtual ~Abstract() {} virtual void f() = 0; };
struct NoDefault { int x; explicit NoDefault(int v): x(v) {} };
int g_ref[2];
template<class T> struct Ord {                                                            // numbers
    static constexpr bool dflt_known = false;
    static T mk(int v) { return (T)v; } static bool same(T const &a, int v) { return a == (T)v; } static bool dflt(T const &) { return true; } static bool husk(T const &a, int v) { return same(a, v); }
};
#define ORD(T, MK, SAME, DFLT_, HUSK) template<> struct Ord<T> {                               \
    static T mk(int v) { return MK; } static bool same(T const &a, int v) { return SAME; }     \
    static bool dflt(T const &a) { return DFLT_; } static bool husk(T const &a, int v) { return HUSK; } };
using Str = std::string; using Vec = std::vector<int>; using Dq = std::deque<int>; using Mp = std::map<int, Str>; using Up = std::unique_ptr<int>; using Sp = std::shared_ptr<int>;
using Ptr = int *; using Fp = int (*)(int); using Dm = int Init::*; using Cp = char const *const *;
ORD(Ptr, (Ptr)((uintptr_t)(v & 1023) * 4), a == (Ptr)((uintptr_t)(v & 1023) * 4), true, same(a, v))
ORD(Cp, (Cp)((uintptr_t)(v & 1023) * 8), a == (Cp)((uintptr_t)(v & 1023) * 8), true, same(a, v))
int fn_a(int x) { return x; } int fn_b(int x) { return -x; }
ORD(Fp, v & 1 ? fn_a : fn_b, a == (v & 1 ? fn_a : fn_b), true, same(a, v))
ORD(Dm, v & 1 ? &Init::x : nullptr, a == (v & 1 ? &Init::x : nullptr), true, same(a, v))
ORD(Str, Str((size_t)(v % 90), 'a') + std::to_string(v), a == Str((size_t)(v % 90), 'a') + std::to_string(v), a.empty(), true)
ORD(Vec, Vec((size_t)(v % 9) + 1, v), a == Vec((size_t)(v % 9) + 1, v), a.empty(), a.empty())
ORD(Dq, Dq((size_t)(v % 9), v), a == Dq((size_t)(v % 9), v), a.empty(), true)
ORD(Mp, (Mp{{v, Str(40, 'm')}, {v + 1, "x"}}), (a == Mp{{v, Str(40, 'm')}, {v + 1, "x"}}), a.empty(), a.empty())
ORD(Up, std::make_unique<int>(v), a && *a == v, !a, !a)
ORD(Sp, std::make_shared<int>(v), a && *a == v && a.use_count() >= 1, !a, !a)
ORD(Empty, (v, Empty{}), (v, a, true), (a, true), (v, a, true))
ORD(Pod, (Pod{{v, v, 3}}), a.a[0] == v && a.a[1] == v && a.a[2] == 3 && a.a[19] == 0, true, same(a, v))
ORD(Wide, (Wide{{v, 3, v}}), a.a[0] == v && a.a[1] == 3 && a.a[2] == v && (uintptr_t)&a % 128 == 0, (uintptr_t)&a % 128 == 0, same(a, v))
ORD(Un, Un{v}, a.i == v, true, same(a, v))
ORD(Fixed, Fixed(v), a.x == v && a.s == Str(80, 'f'), false, a.x == v)
ORD(Ref, Ref{g_ref[v & 1]}, &a.r == &g_ref[v & 1], false, same(a, v))
ORD(Init, (Init{v, "v", {1, 2, 4}}), a.x == v && a.s == "v" && a.d[2] == 4, a.x == 7 && a.s == "an init string that is not small" && a.d[0] == 1 && a.d[2] == 3, a.x == v)
ORD(NoDefault, NoDefault(v), a.x == v, false, same(a, v))
ORD(En, (En)v, a == (En)v, true, same(a, v))
template<class T> Type ordinary(char const *name)
{
    using E = Elem<T>; using O = Ord<E>; Type t{};
    t.name = name; t.plain = MetaType{metaTypeId<T>()}; t.constant = MetaType{metaTypeId<std::add_const_t<T>>()};
    t.size = sizeof(T); t.align = alignof(E); t.n = count<T>;
    t.d = std::is_default_constructible_v<E> ? YES : NO; t.c = std::is_copy_constructible_v<E> ? YES : NO; t.m = std::is_move_constructible_v<E> ? YES : NO;
    t.source = [](int v) -> void * {
        auto *e = (E *)aligned_alloc(alignof(E) < 16 ? 16 : alignof(E), (sizeof(T) + 127) / 128 * 128);
        for (size_t i = 0; i < count<T>; ++i) new (e + i) E(O::mk(v + (int)i));
        return e;
    };
    t.drop = [](void *p) { auto *e = (E *)p; for (size_t i = 0; i < count<T>; ++i) e[i].~E(); free(p); };
    t.is = [](void const *p, int v) { auto *e = (E const *)p; for (size_t i = 0; i < count<T>; ++i) if (!O::same(e[i], v + (int)i)) return false; return true; };
    t.is_default = [](void const *p) { auto *e = (E const *)p; for (size_t i = 0; i < count<T>; ++i) if (!O::dflt(e[i])) return false; return true; };
    t.moved = [](void const *p, int v) { auto *e = (E const *)p; for (size_t i = 0; i < count<T>; ++i) if (!O::husk(e[i], v + (int)i)) return false; return true; };
    t.set = [](void *p, int v) { auto *e = (E *)p; for (size_t i = 0; i < count<T>; ++i) { e[i].~E(); new (e + i) E(O::mk(v + (int)i)); } };
    return t;
}
#define ADD3(D, C, M)                                                                                         \
    r.push_back(tracked<T_##D##_##C##_##M<16, 8>, false>(#D "/" #C "/" #M));                                  \
    r.push_back(tracked<T_##D##_##C##_##M<24, 8>[3], false>(#D "/" #C "/" #M " [3]"));                         \
    r.push_back(tracked<T_##D##_##C##_##M<64, 32>[2][2], false>(#D "/" #C "/" #M " over-aligned [2][2]"));
#define ADD_M(D, C) ADD3(D, C, ABSENT) ADD3(D, C, NO) ADD3(D, C, YES) ADD3(D, C, THROWS)
#define ADD_C(D) ADD_M(D, NO) ADD_M(D, YES) ADD_M(D, THROWS)
std::vector<Type> const &tracked_types()
{
    static std::vector<Type> const all = [] {
        std::vector<Type> r; ADD_C(NO) ADD_C(YES) ADD_C(THROWS)
        r.push_back(tracked<Nest<16, 8>, true>("aggregate of two", 2)); r.push_back(tracked<Nest<24, 8>[3], true>("aggregate of two [3]", 2));
        r.push_back(tracked<Nest<64, 64>[2], true>("over-aligned aggregate of two [2]", 2)); r.push_back(tracked<Virt, false>("virtual"));
        r.push_back(tracked<Virt[2], false>("virtual [2]")); r.push_back(tracked<T_YES_YES_YES<8, 4>[31], false>("YES/YES/YES [31]"));
        r.push_back(tracked<T_THROWS_THROWS_THROWS<256, 256>, false>("THROWS/THROWS/THROWS align 256"));
        return r;
    }();
    return all;
}
std::vector<Type> const &ordinary_types()
{
    static std::vector<Type> const all = {
        ordinary<int>("int"), ordinary<bool>("bool"), ordinary<char>("char"), ordinary<double>("double"), ordinary<long double>("long double"), ordinary<float[7]>("float[7]"),
        ordinary<En>("enum"), ordinary<Ptr>("int*"), ordinary<Cp>("char const*const*"), ordinary<Fp>("int(*)(int)"), ordinary<Dm>("int Init::*"), ordinary<Ptr[3]>("int*[3]"),
        ordinary<int[2][3]>("int[2][3]"), ordinary<char[200]>("char[200]"), ordinary<Str>("string"), ordinary<Str[3]>("string[3]"), ordinary<Str[2][2]>("string[2][2]"),
        ordinary<Vec>("vector"), ordinary<Dq>("deque"), ordinary<Dq[2]>("deque[2]"), ordinary<Mp>("map"), ordinary<Up>("unique_ptr"), ordinary<Up[2]>("unique_ptr[2]"), ordinary<Sp>("shared_ptr"),
        ordinary<Sp[2]>("shared_ptr[2]"), ordinary<Empty>("empty class"), ordinary<Empty[5]>("empty class[5]"), ordinary<Pod>("pod"), ordinary<Pod[2]>("pod[2]"), ordinary<Wide>("over-aligned pod"), ordinary<Wide[2]>("over-aligned pod[2]"),
        ordinary<Un>("union"), ordinary<Fixed>("const member"), ordinary<Fixed[2]>("const member[2]"), ordinary<Ref>("reference member"), ordinary<Init>("default member initialisers"), ordinary<Init[2]>("default member initialisers[2]"), ordinary<Str[150]>("string[150]"), ordinary<Wide[100]>("over-aligned pod[100]"), ordinary<char[3][4][5][6]>("char[3][4][5][6]"), ordinary<NoDefault>("no default constructor"),
    };
    return all;
}
// ---- histories
enum State { DEFAULT, VALUE, MOVED };
struct Live { Type const *t; void *p; State s; int v; bool ours; };      // ours: made by the harness
void verify(pbt::Ctx &c, std::vector<Live> const &all, char const *what)
{
    size_t objects = 0;
    for (auto &l : all) {
        auto &t = *l.t; objects += t.tracked ? t.n * t.per : 0;
        if (l.s == DEFAULT) c.check(t.is_default(l.p), "%s: the %s made by default is not as its default constructor makes it", what, t.name.c_str());
        if (l.s == VALUE) c.check(t.is(l.p, l.v), "%s: the %s does not hold %d", what, t.name.c_str(), l.v);
        if (l.s == MOVED) c.check(t.moved(l.p, l.v), "%s: the %s has not been moved from", what, t.name.c_str());
    }
    c.check(!*error(), "%s: %s", what, error());
    c.check(alive() == objects, "%s: %zu objects are alive, should be %zu", what, alive(), objects);
    for (size_t i = 0; i < all.size(); ++i) for (size_t k = 0; k < all.size(); ++k)
        c.check(i == k || (char *)all[i].p + all[i].t->size <= all[k].p || (char *)all[k].p + all[k].t->size <= all[i].p, "%s: objects overlap", what);
}
void history(pbt::Ctx &c, std::vector<Type> const &types, bool faults)
{
    reset(); std::vector<Live> all; all.reserve(64); int steps = 0; unsigned kinds = 0;
    size_t focus = 1 + c.draw(3); std::vector<Type const *> ts; for (size_t i = 0; i < focus; ++i) ts.push_back(&c.pick_of(types));
    do {
        size_t op = all.size() >= 8 ? 5 : c.weighted({4, 5, 5, 2, 2, 4, 1, 1, 1});
        char what[300]; *what = 0;
        auto alloc_before = pbt::g_live_blocks; long created_before = created(), copies_before = copies(), moves_before = moves();
        if (op <= 2) {                                                   // construct
            Live src{}; size_t si = all.size(); Type const *t = c.pick_of(ts);
            if (op > 0) {
                std::vector<size_t> have; for (size_t i = 0; i < all.size(); ++i) if (all[i].s != DEFAULT || all[i].t->tracked) if (all[i].s != MOVED || all[i].t->tracked) have.push_back(i);
                if (have.empty()) { all.push_back(Live{t, t->source(steps + 10), VALUE, steps + 10, true}); si = all.size() - 1; alloc_before = pbt::g_live_blocks; created_before = created(); }
                else si = c.pick_of(have);
                src = all[si]; t = src.t;
            }
            bool by_const = c.chance(1, 3), movable = op == 2 || (op == 0 && c.chance(1, 4));
            int fault = faults ? (int)c.draw(3) : 0; long k = fault ? 1 + (long)c.draw(fault == 1 ? 3 : t->n + 1) : 0;
            Pol p = op == 0 ? t->d : op == 1 ? t->c : t->m == NO ? t->c : t->m == ABSENT ? t->c : t->m;
            // a class with a deleted copy constructor and no move constructor cannot be moved
            snprintf(what, sizeof what, "%s construct of %s%s from %p%s%ld", op == 0 ? "default" : op == 1 ? "copy" : "move", by_const ? "const " : "", t->name.c_str(), op ? src.p : nullptr,
                     fault == 1 ? ", failing allocation " : fault == 2 ? ", throwing constructor " : ", no fault ", k);
            c.note("%s", what);
            auto const &mt = by_const ? t->constant : t->plain; void *r = nullptr; char const *out = "returned"; bool fired = false;
            throw_countdown() = fault == 2 ? k : -1; threw() = false;
            {
                pbt::AllocFault af(fault == 1 ? k : -1);
                try { r = mt.construct(op ? src.p : nullptr, movable); }
                catch (rtti::runtime_error const &) { out = "refused"; }
                catch (std::bad_alloc const &) { out = "bad_alloc"; }
                catch (Boom const &) { out = "threw"; }
                fired = af.fired();
            }
            throw_countdown() = -1;
            std::string o = out; char const *exp = p == NO ? fired ? "bad_alloc" : "refused" : fired ? "bad_alloc" : fault == 2 && p == THROWS && k <= (long)t->n ? "threw" : "returned";
            c.check(o == exp, "%s: %s, should have %s", what, out, exp);
            c.label(exp); kinds |= 1u << op;
            bool really_moves = op == 2 && t->m != NO && t->m != ABSENT;
            if (o == "returned") {
                c.check(r != nullptr && (uintptr_t)r % t->align == 0, "%s: gave %p, aligned to %zu", what, r, t->align);
                Live l{t, r, op == 0 ? DEFAULT : src.s, src.v, false};
                all.push_back(l);
                if (really_moves && (t->tracked || src.s == VALUE)) { all[si].s = MOVED; }
                if (t->tracked) {
                    long n = (long)(t->n * t->per);
                    c.check(created() - created_before == n && copies() - copies_before == (op == 1 || (op == 2 && !really_moves) ? n : 0) && moves() - moves_before == (really_moves ? n : 0),
                            "%s: %ld objects created, %ld copied, %ld moved", what, created() - created_before, copies() - copies_before, moves() - moves_before);
                    c.check(pbt::g_live_blocks - alloc_before == 1, "%s: took %ld blocks of memory", what, pbt::g_live_blocks - alloc_before);
                }
            } else {
                c.check(r == nullptr, "%s", what);
                if (really_moves && o == "threw" && !fired) { t->set(all[si].p, 9999); all[si].s = VALUE; all[si].v = 9999; }    // partly moved: brought back to a known value
                if (o == "refused") c.check(created() == created_before, "%s: refused, but made objects", what);
                c.check(pbt::g_live_blocks == alloc_before, "%s: %s, and left %+ld blocks of memory", what, out, pbt::g_live_blocks - alloc_before);
            }
        } else if (op == 3 && !all.empty()) {                                // change
            auto &l = all[c.draw(all.size())]; int v = 20 + (int)c.draw(100); snprintf(what, sizeof what, "set %s %p to %d", l.t->name.c_str(), l.p, v); c.note("%s", what);
            l.t->set(l.p, v); l.s = VALUE; l.v = v;
        } else if (op == 4) {                                               // one more object of the harness
            Type const *t = c.pick_of(ts); int v = 20 + (int)c.draw(100); all.push_back(Live{t, t->source(v), VALUE, v, true}); snprintf(what, sizeof what, "new source %s %d", t->name.c_str(), v); c.note("%s", what);
        } else if (op == 5 && !all.empty()) {                               // destruct
            size_t i = c.draw(all.size()); Live l = all[i]; all.erase(all.begin() + (long)i);
            snprintf(what, sizeof what, "destruct %s %p", l.t->name.c_str(), l.p); c.note("%s", what);
            if (l.ours) l.t->drop(l.p);
            else {
                long gone = destroyed(); (c.chance(1, 3) ? l.t->constant : l.t->plain).destruct(l.p); kinds |= 8;
                if (l.t->tracked) {
                    c.check(destroyed() - gone == (long)(l.t->n * l.t->per), "%s: %ld objects destroyed", what, destroyed() - gone);
                    c.check(alloc_before - pbt::g_live_blocks == 1, "%s: %ld blocks of memory given back", what, alloc_before - pbt::g_live_blocks);
                }
            }
        } else if (op == 6) {                                               // nothing
            snprintf(what, sizeof what, "destruct nothing"); c.note("%s", what); c.pick_of(ts)->plain.destruct(nullptr);
            c.check(pbt::g_live_blocks == alloc_before, "destruct(nullptr) changed the heap");
        } else if (op == 7 || op == 8) {                                    // an invalid type
            MetaType none = op == 7 ? MetaType{} : MetaType{"no such type"}; void *src = all.empty() ? nullptr : c.pick_of(all).p;
            snprintf(what, sizeof what, "invalid type"); c.note("%s", what);
            c.check(none.construct(src, c.chance(1, 2)) == nullptr, "an invalid type constructed something"); none.destruct(src);
            c.check(pbt::g_live_blocks == alloc_before && created() == created_before, "an invalid type made something"); c.label("invalid type");
        }
        verify(c, all, what); ++steps;
    } while (steps < 40 && c.more(10));
    while (!all.empty()) {
        Live l = all.back(); all.pop_back();
        if (l.ours) l.t->drop(l.p); else l.t->plain.destruct(l.p);
        verify(c, all, "clearing up");
    }
    c.check(alive() == 0 && used() == 0, "%zu objects are left", used());
    if (steps >= 3 && kinds & (kinds - 1)) c.nontrivial();
}
LAW(tracked, pbt::LEAKS, 60000, 2000000, "histories of default, copy and move construction (from own and from constructed objects), modification and destruction over 115 tracked types (every combination of default, copy and move constructors being absent, deleted, there, or throwing; single, in arrays, over-aligned two-dimensional) through plain and const descriptors, and through invalid types; non-trivial: at least 3 steps of at least 2 kinds")
{ history(c, tracked_types(), false); }
LAW(faults, pbt::LEAKS, 90000, 3000000, "as tracked, with a constructor throwing at a generated position or an allocation failing")
{ history(c, tracked_types(), true); }
LAW(ordinary, pbt::LEAKS, 60000, 2000000, "as faults over 41 ordinary types: scalars, pointers, strings, containers, smart pointers, aggregates, unions, classes with const and reference members, and arrays of them")
{ history(c, ordinary_types(), c.chance(1, 2)); }
LAW(mixed, pbt::LEAKS, 30000, 1000000, "as faults over both sets")
{
    static std::vector<Type> const both = [] { auto r = tracked_types(); auto &o = ordinary_types(); r.insert(r.end(), o.begin(), o.end()); return r; }();
    history(c, both, true);
}
LAW(uncopyable, pbt::LEAKS, 2000, 20000, "types which can only be made by default (atomics, pinned classes, arrays of them) or not at all (abstract classes): supported modes work, the others are refused; non-trivial: always")
{
    static MetaType const pinned{metaTypeId<Pinned>()}, arr{metaTypeId<Pinned[3]>()}, abstract{metaTypeId<Abstract>()};
    size_t which = c.draw(3), mode = c.draw(3); MetaType const &mt = which == 0 ? pinned : which == 1 ? arr : abstract; Pinned some[3]; some[1].x = 6;
    long before = pbt::g_live_blocks; bool refused = false; void *r = nullptr;
    c.note("type %zu mode %zu", which, mode);
    try { r = mt.construct(mode ? (void *)some : nullptr, mode == 2); } catch (rtti::runtime_error const &) { refused = true; }
    bool can = which < 2 && mode == 0;
    c.check(refused == !can && (r != nullptr) == can, "type %zu mode %zu: %s", which, mode, refused ? "refused" : "constructed");
    if (r) { auto *p = (Pinned *)r; for (size_t i = 0; i < (which ? 3 : 1); ++i) c.check(p[i] == 5, "element %zu is not initialised", i); mt.destruct(r); }
    c.check(pbt::g_live_blocks == before, "%+ld blocks of memory", pbt::g_live_blocks - before);
    c.nontrivial();
}
} // namespace
