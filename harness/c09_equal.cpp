// C09: variant equality, eq, hash against the equality of the contained values.
#include <common/access.hpp>
#include <rtti/metadefine.h>
#include <cmath>
#include <limits>
#include <unordered_map>
#include <unordered_set>
using rtti::variant; using rtti::MetaType;

namespace {
using TEq = led::Obj<8, 4, led::COPY | led::MOVE | led::EQ>;
using TEqBig = led::Obj<40, 8, led::COPY | led::MOVE | led::EQ>;
struct NoEq { int a; };
struct Fuzzy { int key; int ignored; std::string s; bool operator==(Fuzzy const &o) const { return key == o.key; } };       // equal values, different bytes
struct Pad { char c; long l; bool operator==(Pad const &o) const { return c == o.c && l == o.l; } };
struct EqThrows { int v; bool operator==(EqThrows const &o) const { if (v == 2 || o.v == 2) throw led::Boom{}; return v == o.v; } };
struct Free { int v; std::string t; };
bool operator==(Free const &a, Free const &b) { return a.v == b.v && a.t == b.t; }
struct Evenness { int v; friend bool operator==(Evenness const &a, Evenness const &b) { return (a.v & 1) == (b.v & 1); } };
}
namespace kinds {
template<> struct Tr<NoEq> { static NoEq make(int v) { return {v}; } static bool same(NoEq const &x, int v) { return x.a == v; } };
template<> struct Tr<Fuzzy> { static Fuzzy make(int v) { static int n = 0; return {v, ++n, std::string((size_t)(n % 5) * 9, 'q')}; } static bool same(Fuzzy const &x, int v) { return x.key == v; } };
template<> struct Tr<Pad> { static Pad make(int v) { Pad p; memset(&p, rand() & 255, sizeof p); p.c = (char)v; p.l = v * 3; return p; } static bool same(Pad const &x, int v) { return x.c == (char)v && x.l == v * 3; } };
template<> struct Tr<EqThrows> { static EqThrows make(int v) { return {v}; } static bool same(EqThrows const &x, int v) { return x.v == v; } };
template<> struct Tr<Free> { static Free make(int v) { return {v, Tr<std::string>::make(v)}; } static bool same(Free const &x, int v) { return x.v == v && x.t == Tr<std::string>::make(v); } };
template<> struct Tr<Evenness> { static Evenness make(int v) { return {v}; } static bool same(Evenness const &x, int v) { return x.v == v; } };
template<> struct Tr<Evenness *> { static Evenness *make(int v) { static Evenness e[8]; return e + v % 8; } static bool same(Evenness *x, int v) { return x == make(v); } };
template<> struct Tr<int const *const *> { static int const *const *make(int v) { return (int const *const *)Tr<int **>::make(v); } static bool same(int const *const *x, int v) { return x == make(v); } };
template<> struct Tr<std::string *> { static std::string *make(int v) { static std::string e[8]; return e + v % 8; } static bool same(std::string *x, int v) { return x == make(v); } };
using PtrArr = int (*)[3];
template<> struct Tr<PtrArr> { static PtrArr make(int v) { static int e[8][3]; return e + v % 8; } static bool same(PtrArr x, int v) { return x == make(v); } };
}
namespace {
struct Zero { double d; };        // doubles with both zeros and infinities
template<class F> F fl(int v) { switch (v) { case 0: return (F)0.0; case 1: return (F)-0.0; case 2: return std::numeric_limits<F>::infinity(); default: return (F)(v * 0.5); } }

struct Kind {
    access::Src src; bool has_eq, throws; int group;           // group: values of kinds in one group share values
    bool (*deq)(void const *a, void const *b);                  // equality of two objects of this shape (arrays elementwise)
    bool (*eqT)(variant const &, void *obj), (*neT)(variant const &, void *obj), (*eqE)(variant const &, void *obj), (*neE)(variant const &, void *obj);
    void (*tweak)(void *obj, size_t i, int v);                  // change one element of an array
    void (*poke)(void *obj, int v);                             // give the object special values (floating point)
};
template<class T, class = void> struct HasEq : std::false_type {};
template<class T> struct HasEq<T, std::void_t<decltype(std::declval<T const &>() == std::declval<T const &>())>> : std::true_type {};

template<class S> struct KindOf {
    using E = std::remove_cv_t<std::remove_all_extents_t<S>>; static constexpr size_t N = sizeof(S) / sizeof(E);
    static bool deq(void const *a, void const *b)
    {
        if constexpr (HasEq<E>::value) { auto *x = (E const *)a, *y = (E const *)b; for (size_t i = 0; i < N; ++i) if (!(x[i] == y[i])) return false; return true; }
        else return false;
    }
    static S const &o(void *p) { return access::SrcOf<S>::o(p); }
    static void poke(void *p, int v) { if constexpr (std::is_floating_point_v<E>) for (size_t i = 0; i < N; ++i) ((E *)p)[i] = fl<E>((v + (int)i) % 4); else { (void)p; (void)v; } }
    static void tweak(void *p, size_t i, int v) { if constexpr (N > 1 && std::is_assignable_v<E &, E>) ((E *)p)[i % N] = kinds::Tr<E>::make(v); else { (void)p; (void)i; (void)v; } }
    static Kind make()
    {
        Kind k; k.tweak = tweak; k.src = access::SrcOf<S>::src(); k.has_eq = HasEq<E>::value; k.throws = std::is_same_v<E, EqThrows>; k.group = 0; k.deq = deq; k.poke = poke;
        k.eqT = [](variant const &v, void *p) { return v.operator==(o(p)); };
        k.neT = [](variant const &v, void *p) { return v.operator!=(o(p)); };
        k.eqE = [](variant const &v, void *p) { return v.eq(o(p)); };
        k.neE = [](variant const &v, void *p) { return v.neq(o(p)); };
        return k;
    }
};
template<class... T> std::vector<Kind> kinds_of(access::L<T...>) { return {KindOf<T>::make()...}; }
std::vector<Kind> const &kinds_()
{
    static std::vector<Kind> const k = kinds_of(access::L<
        int, int[3], int const[3], int[5], int[1], int *, int const *, int **, int *[2], int const *[2], int const *const *, int[2][2], kinds::PtrArr,
        unsigned long, bool, char, char[4], char const[4], char const *, kinds::Scoped, kinds::Unscoped, kinds::Scoped[2],
        double, double[2], float, long double, std::string, std::string[2], std::string const[2], std::string *,
        kinds::Pod12, kinds::Big, Fuzzy, Fuzzy[2], Pad, Pad[2], Free, Evenness, Evenness[3], Evenness *, NoEq, NoEq[2], EqThrows, EqThrows[2],
        TEq, TEqBig, TEq[2], std::vector<int>, std::shared_ptr<int>, std::optional<int>, kinds::Fn, kinds::MemObj, kinds::MemFn, void *, short, unsigned char>{});
    return k;
}
size_t sz(Kind const &k) { return k.src.s.ext; }
// same decayed type and shape
bool comparable(Kind const &a, Kind const &b) { auto &x = a.src.s, &y = b.src.s; return x.base == y.base && x.depth == y.depth && x.ext == y.ext; }

struct Opd { size_t k; int v, form; void *obj = nullptr; variant var; bool empty = false, own = true;
    Opd() = default; Opd(Opd const &) = delete; Opd(Opd &&o): k(o.k), v(o.v), form(o.form), obj(o.obj), var(std::move(o.var)), empty(o.empty), own(o.own) { o.obj = nullptr; }
    ~Opd() { var.clear(); if (obj && own) kinds_()[k].src.destroy(obj); } };
void fill(pbt::Ctx &c, Opd &o, size_t k, int v)
{
    o.k = k; o.v = v; o.form = (int)c.draw(5); auto const &K = kinds_()[k];
    o.obj = K.src.create(v); K.poke(o.obj, v);
    if (K.src.s.ext && c.chance(1, 2)) { size_t i = c.draw(5); int w = (int)c.draw(9); K.tweak(o.obj, i, w); c.note("element %zu set to #%d", i, w); }
    o.var = K.src.make(o.obj, o.form);
    c.note("operand: %s #%d, stored by %d", K.src.name.c_str(), v, o.form);
}
int tri(bool (*f)(variant const &, variant const &), variant const &a, variant const &b)
{ try { return f(a, b); } catch (rtti::runtime_error const &) { return 2; } catch (led::Boom const &) { return 3; } }
template<class F> int tri0(F f) { try { return f(); } catch (rtti::runtime_error const &) { return 2; } catch (led::Boom const &) { return 3; } }

// 0 unequal, 1 equal, 2 not comparable (runtime_error), 3 comparison itself throws
int model(Opd const &a, Opd const &b)
{
    if (a.empty || b.empty) return a.empty && b.empty;
    auto const &x = kinds_()[a.k], &y = kinds_()[b.k];
    if (!comparable(x, y)) return 0;
    if (!x.has_eq) return 2;
    try { return x.deq(a.obj, b.obj); } catch (led::Boom const &) { return 3; }
}
// a is compared with b, which may be the same object or an alias of it
int model_same(Opd const &a, Opd const &b, bool same_object)
{
    int m = model(a, b);
    return same_object && m == 3 ? -1 : m;
}

LAW(equality, 0, 60000, 1500000, "two or three variants of 56 kinds (scalars, pointers of different constness, arrays, objects whose == ignores fields, throws or is missing; empty; stored by value, reference or const reference; aliases): ==, != with variants and with plain values, eq/neq, symmetry, transitivity, hash, against == of the contents; operands stay intact; non-trivial: comparable operands of different objects")
{
    led::reset();
    auto const &ks = kinds_();
    size_t live = led::alive();
    {
        std::vector<Opd> ops; ops.reserve(3);
        size_t n = 2 + c.draw(2), k0 = c.draw(ks.size());
        for (size_t i = 0; i < n; ++i) {
            ops.emplace_back(); auto &o = ops.back();
            if (c.chance(1, 20)) { o.empty = true; o.k = 0; o.v = 0; o.form = 0; c.note("operand: empty"); continue; }
            size_t k = k0;
            if (i && c.chance(1, 3)) {           // another kind of the same decayed base, or anything
                std::vector<size_t> fam; for (size_t q = 0; q < ks.size(); ++q) if (ks[q].src.s.base == ks[k0].src.s.base) fam.push_back(q);
                k = c.chance(3, 4) ? c.pick_of(fam) : c.draw(ks.size());
            }
            fill(c, o, k, (int)c.draw(4));
        }
        // an alias of the first operand
        if (!ops[0].empty && c.chance(1, 8)) { ops[1].var = ks[ops[0].k].src.make(ops[0].obj, 3 + (int)c.draw(2)); ops[1].empty = false; if (ops[1].obj) ks[ops[1].k].src.destroy(ops[1].obj); ops[1].k = ops[0].k; ops[1].v = ops[0].v; ops[1].obj = ops[0].obj; ops[1].own = false; c.note("operand 2 is an alias of operand 1's object"); }
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
            auto &a = ops[i], &b = ops[j];
            int m = model(a, b);
            bool self = i == j;
            int r = tri([](variant const &x, variant const &y) { return x == y; }, a.var, b.var);
            if (m == 3) { c.label("comparison throws"); c.check(r == 3 || r == 1, "%zu == %zu: the exception of the comparison is lost (%d)", i, j, r); continue; }
            c.check(r == m, "operand %zu == operand %zu gives %d, expected %d (2: runtime_error)", i + 1, j + 1, r, m);
            int q = tri([](variant const &x, variant const &y) { return x != y; }, a.var, b.var);
            c.check(q == (m == 2 ? 2 : !m), "operand %zu != operand %zu gives %d", i + 1, j + 1, q);
            int e = tri([](variant const &x, variant const &y) { return x.eq(y); }, a.var, b.var);
            c.check(e == m, "operand %zu eq operand %zu gives %d, expected %d", i + 1, j + 1, e, m);
            int f = tri([](variant const &x, variant const &y) { return x.neq(y); }, a.var, b.var);
            c.check(f == (m == 2 ? 2 : !m), "operand %zu neq operand %zu gives %d", i + 1, j + 1, f);
            if (!b.empty) {
                auto const &K = ks[b.k];
                c.check(tri0([&] { return K.eqT(a.var, b.obj); }) == m, "operand %zu == plain value of operand %zu is not %d", i + 1, j + 1, m);
                c.check(tri0([&] { return K.neT(a.var, b.obj); }) == (m == 2 ? 2 : !m), "operand %zu != plain value of operand %zu is wrong", i + 1, j + 1);
                c.check(tri0([&] { return K.eqE(a.var, b.obj); }) == m, "operand %zu eq plain value of operand %zu is not %d", i + 1, j + 1, m);
                c.check(tri0([&] { return K.neE(a.var, b.obj); }) == (m == 2 ? 2 : !m), "operand %zu neq plain value of operand %zu is wrong", i + 1, j + 1);
            }
            if (m == 1) c.check(std::hash<variant>{}(a.var) == std::hash<variant>{}(b.var), "operands %zu and %zu are equal but their hashes differ", i + 1, j + 1);
            if (!self && !a.empty && !b.empty && comparable(ks[a.k], ks[b.k])) { c.nontrivial(); c.label(m == 1 ? "equal" : m == 2 ? "not comparable" : "unequal"); }
        }
        if (n == 2 && model(ops[0], ops[1]) < 2 && model(ops[0], ops[0]) < 2 && model(ops[1], ops[1]) < 2) {
            std::unordered_set<variant> set; std::vector<variant> held;
            bool copyable = true;
            for (auto &o : ops) if (o.empty || !ks[o.k].src.copyable) copyable = false;
            if (copyable) { for (auto &o : ops) set.insert(o.var); c.check(set.size() == 2u - (unsigned)model(ops[0], ops[1]), "a set of both operands has %zu elements", set.size()); }
        }
        for (size_t i = 0; i < n; ++i) if (!ops[i].empty) {
            auto &o = ops[i]; auto const &K = ks[o.k];
            c.check(!K.has_eq || K.throws || K.deq(K.src.addr(o.var), o.obj), "operand %zu changed", i + 1);
            c.check(MetaType{o.var.typeId()}.decayId() == MetaType{K.src.id(false)}.decayId(), "operand %zu changed its type", i + 1);
        } else c.check(ops[i].var.empty(), "the empty operand is not empty any more");
    }
    c.check(led::alive() == live && !*led::error(), "objects: %s", led::error());
}

// ---- eq through converters
struct Side { char const *name; size_t idx; };
// types taking part in conversions, with an integer key
template<class T> struct Key;
template<> struct Key<int> { static int make(int v) { return v; } static int get(int x) { return x; } };
template<> struct Key<std::string> { static std::string make(int v) { return std::string((size_t)(v % 2) * 30, 'w') + std::to_string(v); } static int get(std::string const &s) { auto p = s.find_first_not_of('w'); return atoi(s.c_str() + (p == s.npos ? 0 : p)); } };
template<> struct Key<TEq> { static TEq make(int v) { return TEq(v); } static int get(TEq const &x) { return x.get(); } };
template<> struct Key<TEqBig> { static TEqBig make(int v) { return TEqBig(v); } static int get(TEqBig const &x) { return x.get(); } };
template<> struct Key<double> { static double make(int v) { return v; } static int get(double x) { return (int)x; } };
int g_cells[8] = {0, 1, 2, 3, 4, 5, 6, 7};
template<> struct Key<int *> { static int *make(int v) { return &g_cells[v % 8]; } static int get(int *x) { return *x; } };
int shift(int v, int p) { return v + p; }
enum Conv { PLAIN_, OKFLAG, THROWS };
// converter of kind `how`: adds `p`, fails on odd keys (OKFLAG, THROWS)
template<class F, class T> void reg(int how, int p)
{
    if (how == PLAIN_) MetaType::registerConverter<F, T>([p](F const &x) { return Key<T>::make(shift(Key<F>::get(x), p)); });
    else if (how == OKFLAG) { struct C { int p; T operator()(F const &x, bool &ok) const { int v = Key<F>::get(x); ok = !(v & 1); return Key<T>::make(shift(v, p)); } }; MetaType::registerConverter<F, T>(C{p}); }
    else MetaType::registerConverter<F, T>([p](F const &x) -> T { int v = Key<F>::get(x); if (v & 1) throw 3; return Key<T>::make(shift(v, p)); });
}
struct EqPair { char const *name; void (*there)(int, int), (*back)(int, int); int (*eq)(int a, int b, int form, bool plain); };
template<class A, class B, bool Arr> int run_eq(int a, int b, int form, bool as_variant)
{
    struct Box { A x; A arr[1]; } bx{Key<A>::make(a), {Key<A>::make(a)}};
    (void)bx;
    B y = Key<B>::make(b);
    auto ask = [&](variant &v) { bool e = v.eq(y), n = v.neq(y); if (as_variant) (void)(v == y); return e == n ? -7 : (int)e; };
    switch (form) {
    case 0: { variant v{Key<A>::make(a)}; int r = ask(v); return Key<A>::get(v.cref<A>()) == a ? r : -8; }
    case 1: { variant v{std::ref(bx.x)}; int r = ask(v); return Key<A>::get(bx.x) == a ? r : -8; }
    default: { variant v{std::cref(bx.x)}; int r = ask(v); return Key<A>::get(bx.x) == a ? r : -8; }
    }
}
template<class A, class B> EqPair ep(char const *n) { return {n, reg<A, B>, reg<B, A>, run_eq<A, B, false>}; }
std::vector<EqPair> const &eps()
{
    static std::vector<EqPair> const v = {ep<int, std::string>("int/string"), ep<int, double>("int/double"), ep<std::string, TEq>("string/object"), ep<TEq, TEqBig>("object/large object"), ep<double, TEqBig>("double/large object"), ep<int *, std::string>("int*/string"), ep<int *, int>("int*/int")};
    return v;
}
LAW(eq_converts, pbt::ISOLATED, 6000, 100000, "fresh process: converters in one or both directions between 7 pairs of types (plain, failing through a flag, throwing), then eq/neq of values stored in 3 ways: true exactly if the available conversion yields an equal value; nothing leaks; operands intact; non-trivial: a converter exists and the conversion succeeds")
{
    led::reset();
    auto const &p = c.pick_of(eps());
    int how1 = (int)c.draw(3), how2 = (int)c.draw(3), s1 = (int)c.draw(3), s2 = (int)c.draw(3); bool there = c.chance(2, 3), back = c.chance(1, 2);
    if (there) p.there(how1, s1);
    if (back) p.back(how2, s2);
    c.note("%s: there %d (+%d, kind %d), back %d (+%d, kind %d)", p.name, there, s1, how1, back, s2, how2);
    do {
        int a = (int)c.draw(4), b = c.chance(1, 2) ? (a + s1) % 8 : (int)c.draw(6), form = (int)c.draw(3); bool extra = c.chance(1, 2);
        c.note("eq of #%d (stored by %d) and #%d", a, form, b);
        bool ok1 = there && (how1 == PLAIN_ || !(a & 1)), ok2 = back && (how2 == PLAIN_ || !(b & 1));
        bool e1 = ok1 && a + s1 == b, e2 = ok2 && b + s2 == a;
        long live = pbt::g_live_blocks; size_t alive = led::alive();
        int r = p.eq(a, b, form, extra);
        long d = pbt::g_live_blocks - live;
        if (d) { live = pbt::g_live_blocks; r = p.eq(a, b, form, extra); d = pbt::g_live_blocks - live; }
        c.check(!d, "eq leaks %ld block(s)", d);
        c.check(led::alive() == alive && !*led::error(), "eq leaves objects behind: %s", led::error());
        c.check(r != -7, "eq and neq are not each other's negation"); c.check(r != -8, "eq changed its operand");
        if (ok1 && ok2 && e1 != e2) c.label("directions disagree");
        else { int want = ok1 ? e1 : e2; c.check(r == want, "eq gives %d, expected %d", r, want); }
        if (ok1 || ok2) { c.nontrivial(); c.label(ok1 ? "converted self" : "converted value"); } else c.label(there || back ? "conversion failed" : "no converter");
    } while (c.more(4));
}
// arrays on either side of a converter from or to a pointer
LAW(eq_arrays, pbt::ISOLATED, 3000, 40000, "fresh process: converters between char const*, int*, strings and numbers, and eq between string/number variants and arrays, array variants and plain values: a converter to a pointer never applies to an array; non-trivial: an array is on one side")
{
    bool s2p = c.chance(1, 2), p2s = c.chance(1, 2), p2l = c.chance(1, 2), l2p = c.chance(1, 2);
    static char const *words[] = {"abc", "abd", "xyz"};
    if (p2s) MetaType::registerConverter<char const *, std::string>([](char const *s) { return std::string(s); });
    if (s2p) MetaType::registerConverter<std::string, char *>([](std::string const &s) { static char keep[64]; snprintf(keep, 64, "%s", s.c_str()); return keep; });
    if (p2l) MetaType::registerConverter<int *, long>([](int const *p) { return (long)p[0]; });
    if (l2p) MetaType::registerConverter<long, int *>([](long v) { static int cells[4]; cells[v & 3] = (int)v; return &cells[v & 3]; });
    c.note("string->char* %d, char*->string %d, int*->long %d, long->int* %d", s2p, p2s, p2l, l2p);
    c.nontrivial();
    do {
        int w = (int)c.draw(3), x = (int)c.draw(3), what = (int)c.draw(6), a = (int)c.draw(4), b = (int)c.draw(4);
        c.note("case %d, %s/%s, %d/%d", what, words[w], words[x], a, b);
        int arr[3] = {a, 7, 8}; char text[4]; memcpy(text, words[x], 4); int one[1] = {a}; (void)one;
        bool r = false, want = false;
        switch (what) {
        case 0: { variant v{std::string(words[w])}; r = v.eq(text); want = p2s && w == x; break; }
        case 1: { variant v{text}; r = v.eq(std::string(words[w])); want = p2s && w == x; break; }
        case 2: { variant v{(long)b}; r = v.eq(arr); want = p2l && a == b; break; }
        case 3: { variant v{arr}; r = v.eq((long)b); want = p2l && a == b; break; }
        case 4: { variant v{std::ref(arr)}; r = v.eq((long)b); want = p2l && a == b; break; }
        default: { variant v{std::cref(text)}; r = v.eq(std::string(words[w])); want = p2s && w == x; break; }
        }
        c.label(want ? "equal" : "unequal");
        c.check(r == want, "case %d: eq gives %d, expected %d", what, r, want);
    } while (c.more(4));
}
} // namespace
