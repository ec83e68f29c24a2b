// C02: what conversions, comparisons, reflected calls, properties, constructors and descriptors create is destroyed once.
#pragma once
#include <common/ledger.hpp>
#include <rtti/metadefine.h>
#include <rtti/variant.h>
#include <rtti/metaerror.h>
#include <memory>
#include <string>
namespace uses {
using namespace led; using rtti::variant; using rtti::MetaType;
template<class T> struct Wrapped { T t; explicit Wrapped(T const &x): t(x) {} Wrapped(T &&x): t(std::move(x)) {} Wrapped(Wrapped const &) = default; };
struct Int { int v; };
template<class T> struct Host {
    T m; T const k{5}; static inline std::unique_ptr<T> s;
    explicit Host(int v): m(v) {}
    Host(T const &x): m(x) {}
    Host(T x, int): m(std::move(x)) {}
    Host(T &&x, T const &y, T z): m(std::move(x)) { (void)y.get(); (void)z.get(); }
    Host(Host const &) = default;
    int byValue(T x) { return x.get(); }
    int byCref(T const &x) const { return x.get(); }
    int byRef(T &x) { x = T(x.get()); return x.get(); }
    int byRvalue(T &&x) { T mine(std::move(x)); return mine.get(); }
    int byConstRvalue(T const &&x) { return x.get(); }
    int look(T &&x) const { return x.get(); }
    int many(T a, T const &b, T c, int d, T e) { return a.get() + b.get() + c.get() + d + e.get(); }
    T make(int v) const { return T(v); }
    T echo(T const &x) const { return x; }
    T pass(T x) { return x; }
    T &ref() { return m; }
    T const &cref() const { return m; }
    static T fresh(int v) { return T(v); }
    static void drop(T) {}
    T get() const { return m; }
    void set(T x) { m = std::move(x); }
    void setC(T const &x) { m = x; }
};
struct Use { char const *name; unsigned caps; void (*run)(pbt::Ctx &, int steps); };

// runs f; what it throws is put into words, nullptr if it returned
template<class F> inline char const *outcome(F &&f)
{
    char const *r = nullptr;
    try { f(); } catch (Boom const &) { r = "Boom"; } catch (std::bad_alloc const &) { r = "bad_alloc"; } catch (rtti::bad_variant_convert const &) { r = "bad_variant_convert"; }
    catch (std::exception const &) { r = "another error"; }
    throw_countdown() = -1; pbt::g_alloc_countdown = -1;
    return r;
}
template<class T> T from_int(Int i) { return T(i.v); }
template<class T> Int to_int(T x) { maybe_throw(); return Int{x.get()}; }
template<class T> Wrapped<T> wrap(T const &x) { maybe_throw(); return Wrapped<T>(x); }
template<class T> T unwrap(Wrapped<T> const &x, bool &ok) { ok = x.t.get() % 3 != 0; return x.t; }
// type ids are handed out by noexcept functions: the first request for one is made without a fault
template<class X> void ids() { (void)rtti::metaTypeId<X>(); (void)rtti::metaTypeId<X const>(); (void)rtti::metaTypeId<X &>(); (void)rtti::metaTypeId<X const &>(); (void)rtti::metaTypeId<X &&>(); (void)rtti::metaTypeId<X const &&>(); (void)rtti::metaTypeId<X *>(); (void)rtti::metaTypeId<X const *>(); }
template<class X> void warm(X const &x)
{
    ids<X>(); variant a(x), b(std::cref(x)), d(std::ref(const_cast<X &>(x))); variant const e(x);
    try { (void)(a == b); (void)(a == e); (void)(d == e); (void)a.eq(b); (void)e.eq(d); } catch (rtti::runtime_error const &) {}
    (void)a.template is<X>(); (void)a.metaClass(); (void)e.template to<X>(); (void)a.template to<X>(); (void)std::move(a).template to<X>();
}
template<class T> void setup(char const *name)
{
    static bool done = false; if (done) return; done = true;
    MetaType::registerConverter<Int, T>(from_int<T>); MetaType::registerConverter<T, Int>(to_int<T>);
    MetaType::registerConverter<T, Wrapped<T>>(wrap<T>); MetaType::registerConverter<Wrapped<T>, T>([](Wrapped<T> const &x, bool &ok) { return unwrap<T>(x, ok); });
    using H = Host<T>;
    rtti::global_define()._class<H>(name).template _constructor<T const &>().template _constructor<T, int>().template _constructor<T &&, T const &, T>()
        ._method("byValue", &H::byValue)._method("byCref", &H::byCref)._method("byRef", &H::byRef)._method("byRvalue", &H::byRvalue)._method("byConstRvalue", &H::byConstRvalue)._method("look", &H::look)._method("many", &H::many)
        ._method("make", &H::make)._method("echo", &H::echo)._method("pass", &H::pass)._method("ref", &H::ref)._method("cref", &H::cref)._method("fresh", &H::fresh)._method("drop", &H::drop)
        ._property("m", &H::m)._property("k", &H::k)._property("p", &H::get, &H::set)._property("pc", &H::get, &H::setC)._end();
    // once without faults, so that nothing is made for the first time under one
    warm(T(1)); warm(Wrapped<T>(T(1))); warm(Int{1}); warm(H(1)); warm(1); ids<T[3]>();
}
struct Slot { variant v; int val; int kind; };                  // kind 0: T, 1: Wrapped<T>, 2: Int, 3: Host<T>, -1: given away
template<class T> void run(pbt::Ctx &c, int steps)
{
    using H = Host<T>;
    char const *const calls[] = {"byValue", "byCref", "byRef", "byRvalue", "byConstRvalue", "look", "echo", "pass", "drop"};
    auto check = [&](Slot &s, int at) {
        if (s.kind < 0) return;
        variant const &cv = s.v; bool ok = !cv.empty();
        if (ok) switch (s.kind) {
            case 0: ok = cv.is<T>() && cv.ref<T>().get() == s.val; break;
            case 1: ok = cv.is<Wrapped<T>>() && cv.ref<Wrapped<T>>().t.get() == s.val; break;
            case 2: ok = cv.is<Int>() && cv.ref<Int>().v == s.val; break;
            default: ok = cv.is<H>() && cv.ref<H>().m.get() == s.val; break;
        }
        c.check(ok, "step %d: the operand has changed (it should be kind %d #%d)", at, s.kind, s.val);
    };
    std::vector<Slot> pool; pool.reserve(16); int done = 0; bool fault = false, threw_ = false;
    auto fresh = [&] {
        int val = (int)c.draw(30), k = (int)c.weighted({5, 2, 1, 3}); Slot s; s.val = val; s.kind = k;
        switch (k) { case 0: s.v = T(val); break; case 1: s.v = Wrapped<T>(T(val)); break; case 2: s.v = Int{val}; break; default: s.v = H(val); break; }
        c.note("new variant %zu: kind %d #%d", pool.size(), k, val); return s; };
    for (int i = 0; i < 3; ++i) pool.push_back(fresh());
    for (int at = 1; at <= steps; ++at) {
        auto &s = pool[c.draw(pool.size())]; auto &o = pool[c.draw(pool.size())]; bool same = &s == &o;
        if (s.kind < 0) { s = fresh(); continue; }
        int op = (int)c.draw(12); fault = c.chance(1, 3); int form = (int)c.draw(3), how = (int)c.draw(4);
        long tc = -1, ac = -1; if (fault) { if (c.chance(2, 3)) tc = (long)c.range(1, 8); else ac = (long)c.range(1, 4); }
        c.note("%d: op %d on %zu (kind %d #%d), other %zu (kind %d), form %d/%d%s", at, op, (size_t)(&s - &pool[0]), s.kind, s.val, (size_t)(&o - &pool[0]), o.kind, form, how, fault ? (tc > 0 ? ", a constructor fails" : ", an allocation fails") : "");
        auto arm = [&] { if (tc > 0) throw_countdown() = tc; if (ac > 0) pbt::g_alloc_countdown = ac; };
        bool consumed = false; char const *r = nullptr; auto const &cs = s.v;
        switch (op) {
        case 0: { int got = s.val; r = outcome([&] { arm(); if (form == 0) got = cs.to<T>().get(); else if (form == 1) got = s.v.to<T>().get(); else { consumed = true; got = std::move(s.v).to<T>().get(); } });
            c.check(r || got == s.val, "step %d: to<T> gives #%d", at, got); break; }
        case 1: r = outcome([&] { arm(); if (form == 0) (void)cs.to<Wrapped<T>>(); else if (form == 1) (void)s.v.to<Wrapped<T>>(); else { consumed = true; (void)std::move(s.v).to<Wrapped<T>>(); } }); break;
        case 2: r = outcome([&] { arm(); if (form == 0) (void)cs.to<Int>(); else if (form == 1) (void)s.v.to<Int>(); else { consumed = true; (void)std::move(s.v).to<Int>(); } }); break;
        case 3: {                                                    // conversion in place: on failure nothing changes
            int to = (int)c.draw(3); bool ok = true;
            r = outcome([&] { arm(); if (form == 0) switch (to) { case 0: ok = s.v.template tryConvert<T>(); break; case 1: ok = s.v.template tryConvert<Wrapped<T>>(); break; default: ok = s.v.template tryConvert<Int>(); break; }
                else switch (to) { case 0: s.v.template convert<T>(); break; case 1: s.v.template convert<Wrapped<T>>(); break; default: s.v.template convert<Int>(); break; } });
            if (!r && ok) { s.kind = to; }
            break; }
        case 4: r = outcome([&] { arm(); bool e = how == 0 ? cs == o.v : how == 1 ? cs.eq(o.v) : how == 2 ? cs != o.v : cs.neq(o.v); (void)e; }); break;
        case 5: r = outcome([&] { T x(s.val); Int i{s.val}; arm(); bool e = how == 0 ? cs == x : how == 1 ? cs.eq(x) : how == 2 ? cs == i : cs.eq(i); (void)e; }); break;
        case 6: if (s.kind != 3 || same) break;                      // a method with a variant, an object or something convertible as argument
            { auto const *name = c.pick(calls); bool taken = false;
            r = outcome([&] { T x(9); Int i{8}; variant res; arm();
                switch (how) {
                case 0: res = s.v.invoke(name, o.v); break;
                case 1: taken = true; res = s.v.invoke(name, std::move(o.v)); break;
                case 2: res = form == 0 ? s.v.invoke(name, x) : form == 1 ? s.v.invoke(name, static_cast<T const &>(x)) : s.v.invoke(name, std::move(x)); break;
                default: res = form == 0 ? s.v.invoke(name, i) : form == 1 ? cs.invoke(name, i) : s.v.invoke(name, std::move(i)); break;
                } });
            if (taken) { o.v.clear(); o.kind = -1; }
            break; }
        case 7: if (s.kind != 3 || same) break;
            {            auto const *fresh = rtti::MetaClass::find(rtti::metaTypeId<H>())->getMethod("fresh");
            r = outcome([&] { variant res; arm();
                switch (how) {
                case 0: res = s.v.invoke("many", o.v, o.v, T(3), 4, o.v); break;
                case 1: res = s.v.invoke("make", 4); break;
                case 2: res = s.v.invoke(form ? "ref" : "cref"); { variant twice = res; res = std::move(twice); } break;
                default: res = fresh->invoke(6); break;
                } });
            break; }
        case 8: if (s.kind != 3) break;                              // properties
            { static char const *const props[] = {"m", "p", "pc", "k"}; auto const *name = c.pick(props); int before = s.val; bool wrote = false;
            r = outcome([&] { T x(17); Int i{17}; variant res; arm();
                switch (how) {
                case 0: res = cs.get_property(name); break;
                case 1: s.v.set_property(name, x); wrote = true; break;
                case 2: if (form) s.v.set_property(name, i); else s.v.set_property(name, T(17)); wrote = true; break;
                default: if (!same && o.kind == 0) { s.v.set_property(name, o.v); wrote = true; } break;
                } });
            if (wrote) { s.val = s.v.template ref<H>().m.get(); } else if (r && (how == 1 || how == 2 || how == 3)) { variant const &q = s.v; int now = q.ref<H>().m.get(); c.check(now == before, "step %d: a refused write changed the object", at); }
            break; }
        case 9: if (same) break;                                     // constructors
            { rtti::MetaClass const *mc = rtti::MetaClass::find(rtti::metaTypeId<H>()); bool taken = false;
            auto const *one = mc->template getConstructor<T const &>(), *two = mc->template getConstructor<T, int>(), *three = mc->template getConstructor<T &&, T const &, T>(), *copy = mc->copyConstructor(); c.check(one && two && three && copy, "constructors are not found");
            r = outcome([&] { T x(4); variant res; arm();
                switch (how) {
                case 0: res = one->invoke(o.v); break;
                case 1: res = form ? two->invoke(x, 3) : two->invoke(Int{3}, 3); break;
                case 2: if (form) { taken = true; res = three->invoke(std::move(o.v), x, Int{3}); } else res = three->invoke(T(3), o.v, x); break;
                default: res = s.kind == 3 ? copy->invoke(s.v) : copy->invoke(x); break;
                } });
            if (taken) { o.v.clear(); o.kind = -1; }
            break; }
        case 10: if (s.kind == 0) {                                  // descriptors
            MetaType mt{how < 2 ? rtti::metaTypeId<T>() : rtti::metaTypeId<T[3]>()}; T a[3] = {T(1), T(2), T(3)}; void *made = nullptr;
            r = outcome([&] { arm(); made = form == 0 ? mt.construct() : mt.construct(how < 2 ? (void *)&a[0] : (void *)&a, form == 2); });
            if (made) { if (form == 1) c.check(static_cast<T *>(made)->get() == 1 && a[0].get() == 1, "step %d: the constructed copy differs", at); mt.destruct(made); } }
            break;
        default: if (same) break;                                    // variants built and dropped
            r = outcome([&] { variant res; arm(); if (form == 0) { variant t(o.v); res = std::move(t); } else if (form == 1) { variant t(std::ref(s.v)); variant u(t); res = u; } else { variant t(s.v); variant u(o.v); using std::swap; swap(t, u); res = t; } });
            break;
        }
        ++done; if (r) threw_ = true;
        if (consumed) { s.v.clear(); s.kind = -1; }
        for (auto &x : pool) check(x, at);
        if (*error()) c.fail("step %d: %s", at, error());
    }
    pool.clear();
    if (threw_) c.label("an operation threw");
    if (done >= 4) c.nontrivial();
}
#define USE(NAME, ...) uses::Use{NAME, 0, [](pbt::Ctx &c, int n) { uses::setup<__VA_ARGS__>("Host of " NAME); led::reset(); uses::run<__VA_ARGS__>(c, n); }}
inline std::vector<Use> &all() { static std::vector<Use> v; return v; }
} // namespace uses
