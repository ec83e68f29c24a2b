// C08: converter registry histories against a map model.
#include <common/ledger.hpp>
#include <rtti/metadefine.h>
#include <rtti/variant.h>
#include <rtti/metaerror.h>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
using rtti::MetaType; using rtti::variant;

namespace {
using TObj = led::Obj<24, 8, led::COPY | led::MOVE>;
using TSmall = led::Obj<8, 4, led::COPY | led::MOVE>;
using TThrow = led::Obj<40, 8, led::COPY | led::MOVE | led::COPY_THROWS | led::MOVE_THROWS>;
enum class En : short {};
int g_tab[64];
struct Cls;
template<class T> struct V;
template<> struct V<int> { static int make(int v) { return v; } static int get(int x) { return x; } };
template<> struct V<long> { static long make(int v) { return v; } static int get(long x) { return (int)x; } };
template<> struct V<double> { static double make(int v) { return v; } static int get(double x) { return (int)x; } };
template<> struct V<En> { static En make(int v) { return (En)v; } static int get(En x) { return (int)x; } };
template<> struct V<int *> { static int *make(int v) { return &g_tab[v % 64]; } static int get(int const *x) { return *x; } };
template<> struct V<std::string> { static std::string make(int v) { return std::string((size_t)(v % 3) * 12, 'z') + std::to_string(v); } static int get(std::string const &s) { auto p = s.find_first_not_of('z'); return p == s.npos ? -1 : atoi(s.c_str() + p); } };
template<> struct V<TObj> { static TObj make(int v) { return TObj(v); } static int get(TObj const &x) { return x.get(); } };
template<> struct V<TSmall> { static TSmall make(int v) { return TSmall(v); } static int get(TSmall const &x) { return x.get(); } };
template<> struct V<TThrow> { static TThrow make(int v) { return TThrow(v); } static int get(TThrow const &x) { return x.get(); } };

int mix(int v, int p) { return (v * 7 + p * 13) % 60; }
bool bad(int v, int p) { return v % 3 == p % 3; }
struct Odd {};
[[noreturn]] void boom(int v) { switch (v % 3) { case 0: throw std::runtime_error("conversion"); case 1: throw 5; default: throw Odd{}; } }

template<class T, int P, bool Fails> T as(int v, bool *ok) { if (Fails) { if (ok) *ok = !bad(v, P); else if (bad(v, P)) boom(v); } return V<T>::make(mix(v, P)); }
struct Cls {                      // a class source with converting members
    TObj inner; long pad = 3;
    explicit Cls(int v): inner(v) {}
    template<class T, int P> T conv() const { return as<T, P, false>(inner.get(), nullptr); }
    template<class T, int P> T convThrow() const { return as<T, P, true>(inner.get(), nullptr); }
    template<class T, int P> T convOk(bool &ok) const { return as<T, P, true>(inner.get(), &ok); }
};
template<> struct V<Cls> { static Cls make(int v) { return Cls(v); } static int get(Cls const &x) { return x.inner.get(); } };
struct FromInt { TObj t; FromInt(int v): t(mix(v, 50)) {} };     // converting constructor
template<> struct V<FromInt> { static FromInt make(int v) { FromInt f(0); f.t = TObj(v); return f; } static int get(FromInt const &x) { return x.t.get(); } };

enum Form { FREE1, FREE2, FREE_CREF, LAMBDA, FUNCTOR, FUNCTOR_LVALUE, OK_FUNCTOR, THROWING, METHOD, METHOD_THROW, METHOD_OK, DEFAULT, HOOKED, FORMS };
char const *form_name[] = {"function 1", "function 2", "function(const&)", "capturing lambda", "functor with heap state", "functor (lvalue)", "functor with ok flag", "throwing lambda", "member function", "throwing member function", "member function with ok flag", "default", "re-entrant"};

template<class F, class T> T free1(F x) { return V<T>::make(mix(V<F>::get(x), 1)); }
template<class F, class T> T free2(F x) { return V<T>::make(mix(V<F>::get(x), 2)); }
template<class F, class T> T free3(F const &x) { return V<T>::make(mix(V<F>::get(x), 3)); }
template<class F, class T> struct Functor { int p; std::string heap; TObj t; explicit Functor(int q): p(q), heap(50, 'h'), t(q) {} T operator()(F const &x) const { return V<T>::make(mix(V<F>::get(x), (int)heap.size() == 50 && t.get() == p ? p : -1)); } };
std::function<void()> g_hook;       // what a re-entrant converter does while it runs
template<class F, class T> struct OkFunctor { int p; T operator()(F const &x, bool &ok) const { ok = !bad(V<F>::get(x), p); return V<T>::make(mix(V<F>::get(x), p)); } };

struct Model { bool present = false; Form form = FREE1; int payload = 0; };
// outcome: -1 failure, otherwise the key of the result
int expected(Model const &m, int v)
{
    if (!m.present) return -1;
    switch (m.form) {
    case FREE1: return mix(v, 1); case FREE2: return mix(v, 2); case FREE_CREF: return mix(v, 3);
    case LAMBDA: case FUNCTOR: case FUNCTOR_LVALUE: case HOOKED: return mix(v, m.payload);
    case OK_FUNCTOR: case THROWING: case METHOD_THROW: case METHOD_OK: return bad(v, m.payload) ? -1 : mix(v, m.payload);
    case METHOD: return mix(v, m.payload);
    case DEFAULT: return m.payload == 50 ? mix(v, 50) : v;
    default: return -1;
    }
}
struct Out { int r; };            // -1 bad_variant_convert, -2 other exception, otherwise the key
struct Pair {
    char const *name; int from, to; unsigned forms;
    bool (*reg)(Form, int payload, int spelling); void (*unreg)(int spelling); bool (*has)(int spelling);
    int (*to_)(variant &, int access); int (*conv)(variant &, bool hard); bool (*can)(variant &, bool cst); bool (*is)(variant &); int (*get)(variant const &);
};
template<class F, class T> struct P {
    template<class A, class B> static bool reg_as(Form f, int p)
    {
        switch (f) {
        case FREE1: return MetaType::registerConverter<A, B>(std::function<T(F const &)>(free1<F, T>));
        case LAMBDA: return MetaType::registerConverter<A, B>([p](F const &x) { return V<T>::make(mix(V<F>::get(x), p)); });
        case FUNCTOR: return MetaType::registerConverter<A, B>(Functor<F, T>(p));
        case FUNCTOR_LVALUE: { Functor<F, T> g(p); return MetaType::registerConverter<A, B>(g); }
        case HOOKED: return MetaType::registerConverter<A, B>([p, f = Functor<F, T>(p)](F const &x) { int v = V<F>::get(x); if (g_hook) { auto h = std::move(g_hook); g_hook = nullptr; h(); } return V<T>::make(mix(v, (int)f.heap.size() == 50 && f.t.get() == p ? p : -1)); });
        case OK_FUNCTOR: return MetaType::registerConverter<A, B>(OkFunctor<F, T>{p});
        case THROWING: return MetaType::registerConverter<A, B>([p](F const &x) { int v = V<F>::get(x); if (bad(v, p)) boom(v); return V<T>::make(mix(v, p)); });
        default: return false;
        }
    }
    template<int Q> static bool reg_method(Form f)
    {
        if constexpr (std::is_same_v<F, Cls>) {
            if (f == METHOD) return MetaType::registerConverter(&Cls::conv<T, Q>);
            if (f == METHOD_THROW) return MetaType::registerConverter(&Cls::convThrow<T, Q>);
            return MetaType::registerConverter(&Cls::convOk<T, Q>);
        } else { (void)f; return false; }
    }
    static bool reg(Form f, int p, int spelling)
    {
        switch (f) {
        case FREE1: if (spelling < 2) return MetaType::registerConverter(&free1<F, T>); return MetaType::registerConverter<F, T>(&free1<F, T>);
        case FREE2: if (spelling < 2) return MetaType::registerConverter(&free2<F, T>); return MetaType::registerConverter<F, T>(&free2<F, T>);
        case FREE_CREF: return MetaType::registerConverter(&free3<F, T>);
        case METHOD: case METHOD_THROW: case METHOD_OK: return p == 4 ? reg_method<4>(f) : p == 5 ? reg_method<5>(f) : reg_method<6>(f);
        case DEFAULT: if constexpr (std::is_convertible_v<F, T> && !std::is_pointer_v<F>) return MetaType::registerConverter<F, T>(); else return false;
        default: break;
        }
        switch (spelling) { case 0: return reg_as<F, T>(f, p); case 1: return reg_as<F const &, T>(f, p); case 2: return reg_as<F const, T const>(f, p); default: return reg_as<F &&, T>(f, p); }
    }
    static void unreg(int spelling)
    {
        switch (spelling) {
        case 0: MetaType::unregisterConverter<F, T>(); break;
        case 1: MetaType::unregisterConverter<F const &, T const>(); break;
        case 2: MetaType::unregisterConverter(rtti::metaTypeId<F>(), rtti::metaTypeId<T>()); break;
        default: MetaType::unregisterConverter(rtti::metaTypeId<F &&>(), rtti::metaTypeId<T const &>()); break;
        }
    }
    static bool has(int spelling)
    {
        switch (spelling) {
        case 0: return MetaType::hasConverter<F, T>();
        case 1: return MetaType::hasConverter<F const, T const &>();
        case 2: return MetaType::hasConverter(rtti::metaTypeId<F &>(), rtti::metaTypeId<T &&>());
        default: return MetaType::hasConverter(rtti::metaType<F const &>(), rtti::metaType<T const>());
        }
    }
    template<class G> static int caught(G &&g)
    {
        try { return g(); }
        catch (rtti::bad_variant_convert const &) { return -1; }
        catch (led::Boom const &) { return -3; }
        catch (...) { return -2; }
    }
    static int to_(variant &v, int access)
    {
        variant const &cv = v;
        switch (access) {
        case 0: return caught([&] { return V<T>::get(v.to<T>()); });
        case 1: return caught([&] { return V<T>::get(cv.to<T>()); });
        case 2: return caught([&] { return V<T>::get(v.to<T const>()); });
        default: return caught([&] { return V<T>::get(cv.to<T const>()); });
        }
    }
    static int conv(variant &v, bool hard)
    {
        if (hard) return caught([&] { v.convert<T>(); return get(v); });
        return caught([&] { return v.tryConvert<T>() ? get(v) : -1; });
    }
    static int get(variant const &v) { return V<T>::get(v.cref<T>()); }
    static bool can(variant &v, bool cst) { variant const &cv = v; return cst ? cv.canConvert<T>() : v.canConvert<T>(); }
    static bool is(variant &v) { return v.is<T>() || v.data<T>(); }
    static Pair pair(char const *n, int f, int t)
    {
        unsigned forms = (1u << FREE1) | (1u << FREE2) | (1u << FREE_CREF) | (1u << LAMBDA) | (1u << FUNCTOR) | (1u << FUNCTOR_LVALUE) | (1u << OK_FUNCTOR) | (1u << THROWING) | (1u << HOOKED);
        if (std::is_same_v<F, Cls>) forms |= (1u << METHOD) | (1u << METHOD_THROW) | (1u << METHOD_OK);
        if constexpr (std::is_convertible_v<F, T> && !std::is_pointer_v<F>) forms |= 1u << DEFAULT;
        return Pair{n, f, t, forms, reg, unreg, has, to_, conv, can, is, get};
    }
};
struct From { char const *name; variant (*make)(int v, int form, void *&keep); void (*drop)(void *); int (*get)(variant const &); };
template<class F> struct FR {
    struct Box { F x; int arr[2]; explicit Box(int v): x(V<F>::make(v)), arr{v, v + 1} {} };
    static variant make(int v, int form, void *&keep)
    {
        auto *b = new Box(v); keep = b;
        switch (form) {
        case 0: return variant{V<F>::make(v)};
        case 1: return variant{b->x};
        case 2: return variant{std::ref(b->x)};
        case 3: return variant{std::cref(b->x)};
        default: if constexpr (std::is_same_v<F, int *>) return variant{b->arr}; else return variant{static_cast<F const &>(b->x)};
        }
    }
    static int get(variant const &v) { if constexpr (std::is_same_v<F, int *>) return *v.to<int const *>(); else return V<F>::get(v.cref<F>()); }
    static From from(char const *n) { return {n, make, [](void *p) { delete static_cast<Box *>(p); }, get}; }
};
std::vector<From> const &froms() { static std::vector<From> const f = {FR<int>::from("int"), FR<En>::from("enum"), FR<int *>::from("int*"), FR<std::string>::from("string"), FR<Cls>::from("class"), FR<TSmall>::from("small object"), FR<double>::from("double")}; return f; }
std::vector<Pair> const &pairs()
{
    static std::vector<Pair> const p = {
        P<int, long>::pair("int->long", 0, 0), P<int, std::string>::pair("int->string", 0, 1), P<int, TObj>::pair("int->object", 0, 2), P<int, FromInt>::pair("int->class by constructor", 0, 5),
        P<En, long>::pair("enum->long", 1, 0), P<En, std::string>::pair("enum->string", 1, 1), P<int *, long>::pair("int*->long", 2, 0), P<int *, TObj>::pair("int*->object", 2, 2),
        P<std::string, long>::pair("string->long", 3, 0), P<std::string, TThrow>::pair("string->throwing object", 3, 4), P<std::string, TObj>::pair("string->object", 3, 2),
        P<Cls, long>::pair("class->long", 4, 0), P<Cls, std::string>::pair("class->string", 4, 1), P<Cls, TObj>::pair("class->object", 4, 2), P<Cls, TThrow>::pair("class->throwing object", 4, 4),
        P<TSmall, std::string>::pair("small object->string", 5, 1), P<TSmall, TObj>::pair("small object->object", 5, 2), P<double, long>::pair("double->long", 6, 0), P<double, TThrow>::pair("double->throwing object", 6, 4),
    };
    return p;
}

void run(pbt::Ctx &c, size_t npairs, bool faults)
{
    for (int i = 0; i < 64; ++i) g_tab[i] = i;
    led::reset();
    auto const &ps = pairs();
    std::vector<size_t> use; for (size_t i = 0; i < npairs; ++i) use.push_back(c.draw(ps.size()));
    std::vector<Model> m(ps.size());
    for (size_t i = 0; i < ps.size(); ++i) c.check(!ps[i].has(0), "%s: a converter is registered from the start", ps[i].name);
    int step = 0, reentrant = 0, regs = 0, rereg = 0, convs = 0;
    while (step < 40 && c.more(18)) {
        ++step;
        std::function<void(int)> act = [&](int depth) {
        size_t i = c.pick_of(use); auto const &p = ps[i];
        switch (c.weighted({5, 3, 10, 2, 1})) {
        case 0: {
            std::vector<int> fs; for (int f = 0; f < FORMS; ++f) if ((p.forms >> f) & 1) fs.push_back(f);
            Form f = (Form)c.pick_of(fs); int pay = f >= METHOD && f <= METHOD_OK ? 4 + (int)c.draw(3) : f == DEFAULT ? (p.to == 5 ? 50 : 0) : 7 + (int)c.draw(30); int sp = (int)c.draw(4);
            c.note("%d: register %s: %s, payload %d, spelling %d", step, p.name, form_name[f], pay, sp);
            bool r = p.reg(f, pay, sp);
            c.check(r == !m[i].present, "step %d: registering %s %s", step, p.name, r ? "succeeded twice" : "was refused");
            if (!m[i].present) { m[i] = Model{true, f, pay}; if (++regs > 1) ++rereg; } else c.label("second registration");
            break; }
        case 1: { int sp = (int)c.draw(4); c.note("%d: unregister %s (%d)", step, p.name, sp); p.unreg(sp); m[i].present = false; break; }
        case 2: {
            auto const &f = froms()[(size_t)p.from]; int v = (int)c.draw(40), form = (int)c.draw(5), how = (int)c.draw(7);
            int fault = faults && c.chance(1, 3) ? 1 + (int)c.draw(4) : 0;
            c.note("%d: %s of #%d, stored by %d, access %d%s", step, p.name, v, form, how, fault ? ", copy/move throws" : "");
            int want = expected(m[i], v); bool hook = m[i].present && m[i].form == HOOKED && depth < 3 && !fault && c.chance(2, 3), hooked = hook;
            auto once = [&](long &leak) {
                long live = pbt::g_live_blocks; size_t alive = led::alive();
                {
                    void *keep = nullptr; variant x = f.make(v, form, keep);
                    struct D { From const &f; void *k; ~D() { f.drop(k); } } d{f, keep};
                    c.check(p.can(x, how & 1) == m[i].present && !p.is(x), "step %d: canConvert is wrong for %s", step, p.name);
                    if (fault) led::throw_countdown() = fault;
                    g_hook = nullptr; if (hook) { hook = false; g_hook = [&] { c.note("   while it runs:"); for (uint64_t k = 1 + c.draw(3); k--; ) act(depth + 1); g_hook = nullptr; c.note("   returns"); }; ++reentrant; }
                    int got = how < 4 ? p.to_(x, how) : p.conv(x, how == 4 || how == 5);
                    bool fired = led::threw(); led::throw_countdown() = -1; led::threw() = false;
                    if (fired && (got == -3 || got == -1)) { c.check(!p.is(x) && f.get(x) == v, "step %d: a failed conversion changed the variant", step); }
                    else {
                        c.check(got == want, "step %d: %s of #%d gives %d, expected %d (-1: bad_variant_convert, -2: another exception)", step, p.name, v, got, want);
                        if (how >= 4 && got >= 0) c.check(p.is(x) && p.get(x) == want, "step %d: the converted variant shows another value", step);
                        else c.check(!p.is(x) && f.get(x) == v, "step %d: %s changed the variant", step, want < 0 ? "a failed conversion" : "to");
                    }
                }
                leak = pbt::g_live_blocks - live;
                if (hooked) { c.check(!*led::error(), "step %d: %s: %s", step, p.name, led::error()); leak = 0; return; }
                c.check(led::alive() == alive && !*led::error(), "step %d: %s: %ld objects left behind; %s", step, p.name, (long)led::alive() - (long)alive, led::error());
            };
            long l1 = 0, l2 = 0; once(l1); if (l1) { once(l2); c.check(!l2, "step %d: %s leaks %ld block(s)", step, p.name, l2); }
            ++convs; c.label(want < 0 ? (m[i].present ? "converter fails" : "no converter") : "converted");
            break; }
        case 3: for (int sp = 0; sp < 4; ++sp) c.check(p.has(sp) == m[i].present, "step %d: hasConverter(%s) in spelling %d is wrong", step, p.name, sp); break;
        case 4: for (size_t k = 0; k < ps.size(); ++k) { bool any = false; for (size_t q = 0; q < ps.size(); ++q) any |= ps[q].from == ps[k].from && ps[q].to == ps[k].to && m[q].present; c.check(ps[k].has(0) == any, "step %d: a converter %s", step, any ? "disappeared" : "appeared"); } break;
        }
        };
        act(0);
    }
    c.check(!MetaType::hasConverter(MetaType{}, rtti::metaType<int>()) && !MetaType::hasConverter(rtti::metaType<int>(), MetaType{}), "an invalid type has a converter");
    if (reentrant) c.label("re-entrant conversion");
    if (regs && convs && (rereg || convs > 3)) c.nontrivial();
}
LAW(registry_history, pbt::ISOLATED, 14000, 300000, "fresh process: up to 40 registrations (13 forms, 4 spellings), removals, queries and conversions (by functions which themselves register, remove, query and convert, also themselves, while they run; 5 ways to store, 7 ways to convert) over 1..4 of 19 type pairs, against a map model with the value each function computes; heap and object balance of every conversion; non-trivial: a registration and conversions, with a re-registration or at least 4 conversions")
{ run(c, 1 + c.draw(4), false); }
LAW(registry_faults, pbt::ISOLATED, 6000, 120000, "as registry_history over 1..2 pairs, with copies and moves of source and result objects that throw")
{ run(c, 1 + c.draw(2), true); }
} // namespace
