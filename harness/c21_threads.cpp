// C21: queries, conversions and first uses from several threads.
//
// A case draws a tree of containers with (nested) deferred definitions, then the operations of 2-4 threads in
// rounds separated by barriers. Everything is drawn before the threads start. Results are judged in the thread
// (a container is complete for everybody but the thread which is defining it), by a linearizability check
// (converters), by comparison across threads (ids), and by ThreadSanitizer.
#include <pbt.hpp>
#include <rtti/metadefine.h>
#include <rtti/variant.h>
#include <atomic>
#include <array>
#include <deque>
#include <map>
#include <mutex>
#include <optional>
#include <set>
#include <thread>
#include <unistd.h>
using namespace rtti;

namespace {
// ---------------------------------------------------------------------------------------------- subjects
template<int K> struct U { int v = K; char pad[1 + K % 5]; bool operator==(U const &o) const { return v == o.v; } };
template<int K> struct V { std::string s = "fresh value, long enough for the heap " + std::to_string(K); bool operator==(V const &o) const { return s == o.s; } };

struct TA { int a = 11; virtual ~TA() = default; int fa(int x) const { return 1000 + a + x; } DECLARE_CLASSINFO };
struct TB { int b = 22; virtual ~TB() = default; int fb(int x) const { return 2000 + b + x; } DECLARE_CLASSINFO };
struct TC: TA, TB { int c = 33; int fc(int x) const { return 3000 + c + x; } DECLARE_CLASSINFO };
struct TD: TC { int d = 44; int fd(int x) const { return 4000 + d + x; } DECLARE_CLASSINFO };
struct TE: TA { int e = 55; int fe(int x) const { return 5000 + e + x; } DECLARE_CLASSINFO };
struct TF: TE, TB { int f = 66; int ff(int x) const { return 6000 + f + x; } DECLARE_CLASSINFO };
int const NT = 6;
char const *const t_name[NT] = {"TA", "TB", "TC", "TD", "TE", "TF"};
char const *const t_method[NT] = {"fa", "fb", "fc", "fd", "fe", "ff"};
int const t_value[NT] = {1011, 2022, 3033, 4044, 5055, 6066};
char const *const t_prop[NT] = {"a", "b", "c", "d", "e", "f"};
int const t_field[NT] = {11, 22, 33, 44, 55, 66};
std::set<int> const t_up[NT] = {{0}, {1}, {0, 1, 2}, {0, 1, 2, 3}, {0, 4}, {0, 1, 4, 5}};
std::set<int> const t_direct[NT] = {{}, {}, {0, 1}, {2}, {0}, {4, 1}};

template<int I> struct K {                      // classes declared inside namespaces
    int a = I, b = I + 1, c = I + 2;
    template<int J> int m(int x) const { return 10000 * (I + 1) + 100 * J + x; }
};
int const NK = 10;
template<int J> int fn(int x) { return 100 * (J + 1) + x; }
template<int J> int gv = 7 * (J + 1);
enum class E0 { x, y, z }; enum class E1 { x, y, z }; enum class E2 { x, y, z }; enum class E3 { x, y, z };
template<int> struct EnumOf; template<> struct EnumOf<0> { using t = E0; }; template<> struct EnumOf<1> { using t = E1; }; template<> struct EnumOf<2> { using t = E2; }; template<> struct EnumOf<3> { using t = E3; };

template<int P> struct From { int v; };
template<int P> struct To { int v; std::string s; };
int const NP = 4;

// ---------------------------------------------------------------------------------------------- the plan
enum Kind { NS, CLS, FAMILY };
enum StepKind { METHOD, PROP, ENUM, KID, PAUSE, QUERY, SHARED, BASES };
struct Spec;
struct Step { StepKind kind; int k; };
struct Spec {
    int id = 0; Kind kind = NS; int k = -1; std::string name; Spec *parent = nullptr; int depth = 0;
    std::vector<std::pair<std::string, int>> attrs; size_t attrsEager = 0;
    std::vector<Step> steps; size_t lazyFrom = ~size_t{}; bool lazy() const { return lazyFrom != ~size_t{}; }
    std::vector<std::unique_ptr<Spec>> kids;
    std::atomic<int> runs{0}, finished{0};
    std::string qualified() const { return (parent ? parent->qualified() : "") + (parent ? "::" + name : ""); }
    int count(StepKind s) const { int n = 0; for (auto &x : steps) n += x.kind == s; return n; }
    int kidsOf(bool ns) const { int n = 0; for (auto &x : kids) n += (x->kind == NS) == ns; return n; }
};
struct World;
World *W = nullptr;
thread_local std::vector<Spec*> running;        // definitions this thread is executing
bool mine(Spec *s) { for (auto r : running) if (r == s) return true; return false; }
bool minePath(Spec *s) { for (; s; s = s->parent) if (mine(s)) return true; return false; }
bool mineFamily() { for (auto r : running) if (r->kind == FAMILY) return true; return false; }

struct Bad { std::string msg; };
[[noreturn]] __attribute__((format(printf, 1, 2))) void bad(char const *f, ...)
{ char b[1500]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); throw Bad{b}; }
#define NEED(cond, ...) do { if (!(cond)) bad(__VA_ARGS__); } while (0)

struct World {
    std::deque<Spec*> nodes; Spec root; std::array<Spec*, NT> fam{}; int sharedPlanned = 0; std::atomic<int> sharedDone{0};
    std::mutex failLock; std::string fail; std::atomic<bool> stop{false};
    void report(std::string const &m) { std::lock_guard<std::mutex> g{failLock}; if (fail.empty()) fail = m; stop = true; }
};

void pause(int k) { if (k == 0) std::this_thread::yield(); else if (k < 4) for (int i = 0; i < k * 4; ++i) std::this_thread::yield(); else usleep((useconds_t)(k * 40)); }
void verify(Spec *s, MetaContainer const *c);
MetaContainer const *navigate(Spec *s);
void visit(Spec *s) { if (auto c = navigate(s)) verify(s, c); }

// ---------------------------------------------------------------------------------------------- definitions
template<int N, class F> void with_index(int k, F f) { if constexpr (N > 0) { if (k == N - 1) f(std::integral_constant<int, N - 1>{}); else with_index<N - 1>(k, f); } }
template<Kind KIND, int I, int DEPTH, class D> void declare(D d, Spec *s, size_t from, size_t to);
template<Kind KIND, int I, int DEPTH, class D> void body(D d, Spec *s)           // the eager part, then _lazy
{
    for (size_t i = 0; i < s->attrsEager; ++i) d = d._attribute(s->attrs[i].first, s->attrs[i].second);
    declare<KIND, I, DEPTH>(d, s, 0, s->lazy() ? s->lazyFrom : s->steps.size());
    if (s->lazy()) d._lazy([s](auto x) {
        if (s->runs.fetch_add(1) != 0) W->report("the deferred definition of " + s->qualified() + " is executed again");
        struct In { Spec *s; In(Spec *x) : s(x) { running.push_back(s); } ~In() { running.pop_back(); s->finished.fetch_add(1); } } in{s};
        for (size_t i = s->attrsEager; i < s->attrs.size(); ++i) { x = x._attribute(s->attrs[i].first, s->attrs[i].second); pause(0); }
        declare<KIND, I, 0>(x, s, s->lazyFrom, s->steps.size());
    });
}
void add_shared(int k);
template<Kind KIND, int I, int DEPTH, class D> void declare(D d, Spec *s, size_t from, size_t to)
{
    for (size_t i = from; i < to; ++i) {
        Step st = s->steps[i];
        switch (st.kind) {
        case METHOD:
            if constexpr (KIND == NS) with_index<6>(st.k, [&](auto j) { d = d._method("m" + std::to_string(st.k), &fn<j()>); });
            else if constexpr (KIND == CLS) with_index<6>(st.k, [&](auto j) { d = d._method("m" + std::to_string(st.k), &K<I>::template m<j()>); });
            else { if constexpr (I == 0) d = d._method("fa", &TA::fa); else if constexpr (I == 1) d = d._method("fb", &TB::fb); else if constexpr (I == 2) d = d._method("fc", &TC::fc);
                   else if constexpr (I == 3) d = d._method("fd", &TD::fd); else if constexpr (I == 4) d = d._method("fe", &TE::fe); else d = d._method("ff", &TF::ff); }
            break;
        case PROP:
            if constexpr (KIND == NS) with_index<4>(st.k, [&](auto j) { d = d._property("p" + std::to_string(st.k), &gv<j()>); });
            else if constexpr (KIND == CLS) switch (st.k) { case 0: d = d._property("p0", &K<I>::a); break; case 1: d = d._property("p1", &K<I>::b); break; default: d = d._property("p2", &K<I>::c); }
            else { if constexpr (I == 0) d = d._property("a", &TA::a); else if constexpr (I == 1) d = d._property("b", &TB::b); else if constexpr (I == 2) d = d._property("c", &TC::c);
                   else if constexpr (I == 3) d = d._property("d", &TD::d); else if constexpr (I == 4) d = d._property("e", &TE::e); else d = d._property("f", &TF::f); }
            break;
        case ENUM:
            with_index<4>(st.k, [&](auto j) { using E = typename EnumOf<j()>::t; d = d.template _enum<E>("e" + std::to_string(st.k)); d = d._element("x", E::x); d = d._element("y", E::y); pause(0); d = d._element("z", E::z); });
            break;
        case BASES:
            if constexpr (KIND == FAMILY) {
                if constexpr (I == 2) d.template _base<TA, TB>(); else if constexpr (I == 3) d.template _base<TC>(); else if constexpr (I == 4) d.template _base<TA>(); else if constexpr (I == 5) d.template _base<TE, TB>();
            }
            break;
        case KID: {
            Spec *k = s->kids[(size_t)st.k].get();
            if constexpr (KIND == NS && DEPTH < 3) {
                if (k->kind == NS) { auto x = d._namespace(k->name); body<NS, 0, DEPTH + 1>(x, k); d = x._end(); }
                else with_index<NK>(k->k, [&](auto j) { auto x = d.template _class<K<j()>>(k->name); body<CLS, j(), DEPTH + 1>(x, k); d = x._end(); });
            }
            break; }
        case PAUSE: pause(st.k); break;
        case QUERY: visit(W->nodes[(size_t)st.k]); break;
        case SHARED: add_shared(st.k); break;
        }
    }
}
void add_shared(int k)                                     // a definition which adds to a container everybody reads
{
    auto g = global_define(); auto n = g._namespace("shared");
    n = n._attribute("s" + std::to_string(k), k);
    n._method("s" + std::to_string(k), &fn<0>);
    W->sharedDone.fetch_add(1);
}

// ---------------------------------------------------------------------------------------------- oracles
MetaContainer const *navigate(Spec *s)                    // nullptr: not there, and that is all right
{
    if (!s->parent) return MetaNamespace::global();
    auto up = navigate(s->parent); if (!up) return nullptr;
    MetaContainer const *r = s->kind == NS ? static_cast<MetaContainer const*>(up->getNamespace(s->name)) : up->getClass(s->name);
    if (!r && minePath(s->parent)) return nullptr;
    NEED(r, "%s is not there", s->qualified().c_str());
    NEED(r->name() == s->name && r->owner() == up, "%s has the name %s or another owner", s->qualified().c_str(), r->name().c_str());
    return r;
}
void counts(Spec *s, MetaContainer const *c)
{
    if (mine(s) || !s->parent) return;
    auto q = s->qualified();
    size_t m = c->methodCount(), p = c->propertyCount(), e = c->enumCount(), n = c->namespaceCount(), k = c->classCount(), a = c->attributeCount();
    NEED(m == (size_t)s->count(METHOD), "%s has %zu of its %d methods", q.c_str(), m, s->count(METHOD));
    NEED(p == (size_t)s->count(PROP), "%s has %zu of its %d properties", q.c_str(), p, s->count(PROP));
    NEED(e == (size_t)s->count(ENUM), "%s has %zu of its %d enumerations", q.c_str(), e, s->count(ENUM));
    NEED(n == (size_t)s->kidsOf(true) && k == (size_t)s->kidsOf(false), "%s has %zu of its %d namespaces and %zu of its %d classes", q.c_str(), n, s->kidsOf(true), k, s->kidsOf(false));
    NEED(a == s->attrs.size(), "%s has %zu of its %zu attributes", q.c_str(), a, s->attrs.size());
    if (s->kind == FAMILY) { size_t b = static_cast<MetaClass const*>(c)->baseClassCount(); NEED(b == t_direct[s->k].size(), "%s has %zu of its %zu bases", q.c_str(), b, t_direct[s->k].size()); }
}
void attributes(Spec *s, MetaContainer const *c)
{
    if (mine(s) || !s->parent) return;
    for (size_t i = 0; i < s->attrs.size(); ++i) {
        auto &v = c->attribute(s->attrs[i].first); NEED(v.is<int>() && v.cref<int>() == s->attrs[i].second, "%s lacks its attribute %s", s->qualified().c_str(), s->attrs[i].first.c_str());
        auto &x = c->attribute(i); NEED(x.is<int>() && x.cref<int>() == s->attrs[i].second && c->attributeName(i) == s->attrs[i].first, "attribute %zu of %s is not %s", i, s->qualified().c_str(), s->attrs[i].first.c_str());
    }
    size_t n = 0; c->for_each_attribute([&](std::string_view nm, variant const &v) { NEED(n < s->attrs.size() && nm == s->attrs[n].first && v.cref<int>() == s->attrs[n].second, "attribute %zu of %s is not as declared", n, s->qualified().c_str()); ++n; return true; });
    NEED(n == s->attrs.size(), "%zu of %zu attributes of %s enumerated", n, s->attrs.size(), s->qualified().c_str());
}
void named(Spec *s, MetaItem const *i, std::string const &nm)
{
    NEED(i, "%s::%s is not there", s->qualified().c_str(), nm.c_str());
    NEED(i->name() == nm && i->qualifiedName() == s->qualified() + "::" + nm, "%s::%s calls itself %s", s->qualified().c_str(), nm.c_str(), i->qualifiedName().c_str());
}
template<class F> void with_instance(Spec *s, F f)
{
    if (s->kind == CLS) with_index<NK>(s->k, [&](auto j) { K<j()> o; variant v{o}; f(v); });
    else switch (s->k) { case 0: { variant v{TA{}}; f(v); break; } case 1: { variant v{TB{}}; f(v); break; } case 2: { variant v{TC{}}; f(v); break; } case 3: { variant v{TD{}}; f(v); break; } case 4: { variant v{TE{}}; f(v); break; } default: { variant v{TF{}}; f(v); } }
}
void members(Spec *s, MetaContainer const *c)
{
    if (mine(s) || !s->parent) return;
    size_t im = 0, ip = 0, ie = 0, in = 0, ic = 0;
    for (auto &st : s->steps) switch (st.kind) {
    case METHOD: {
        std::string n = s->kind == FAMILY ? t_method[s->k] : "m" + std::to_string(st.k), sig = n + "(int)" + (s->kind == NS ? "" : " const");
        auto m = c->getMethod(n); NEED(m, "method %s of %s is not there", n.c_str(), s->qualified().c_str());
        NEED(m == c->getMethod(m->name()) && m == c->getMethod(im), "method %s of %s is not number %zu", n.c_str(), s->qualified().c_str(), im);
        named(s, m, m->name()); ++im;
        NEED(m->name().compare(0, n.size() + 1, n + "(") == 0, "method %s is called %s", n.c_str(), m->name().c_str());
        if (s->kind == NS) { int r = m->invoke(5).to<int>(); NEED(r == 100 * (st.k + 1) + 5, "%s::%s(5) is %d", s->qualified().c_str(), n.c_str(), r); }
        else with_instance(s, [&](variant &v) { int r = m->invoke(v, 5).to<int>(), x = s->kind == CLS ? 10000 * (s->k + 1) + 100 * st.k + 5 : t_value[s->k] + 5; NEED(r == x, "%s::%s(5) is %d", s->qualified().c_str(), n.c_str(), r); });
        break; }
    case PROP: {
        std::string n = s->kind == FAMILY ? t_prop[s->k] : "p" + std::to_string(st.k); auto p = c->getProperty(n); named(s, p, n); NEED(p == c->getProperty(ip), "property %s of %s is not number %zu", n.c_str(), s->qualified().c_str(), ip); ++ip;
        if (s->kind == NS) { int r = p->get().to<int>(); NEED(r == 7 * (st.k + 1), "%s is %d", p->qualifiedName().c_str(), r); }
        else with_instance(s, [&](variant &v) { int r = p->get(v).to<int>(), x = s->kind == CLS ? s->k + std::min(st.k, 2) : t_field[s->k]; NEED(r == x, "%s is %d, not %d", p->qualifiedName().c_str(), r, x); });
        break; }
    case ENUM: {
        std::string n = "e" + std::to_string(st.k); auto e = c->getEnum(n); named(s, e, n); NEED(e == c->getEnum(ie), "enum order of %s", s->qualified().c_str()); ++ie;
        NEED(e->elementCount() == 3 && e->elementName(2) == "z" && !e->element("y").empty(), "%s has %zu elements", e->qualifiedName().c_str(), e->elementCount());
        size_t k = 0; e->for_each_element([&](std::string const &, variant const &v) { k += !v.empty(); return true; }); NEED(k == 3, "%s enumerates %zu elements", n.c_str(), k);
        break; }
    case KID: {
        Spec *k = s->kids[(size_t)st.k].get(); MetaItem const *i = k->kind == NS ? static_cast<MetaItem const*>(c->getNamespace(k->name)) : c->getClass(k->name); named(s, i, k->name);
        if (k->kind == NS) { NEED(c->getNamespace(in) == i, "namespace order of %s", s->qualified().c_str()); ++in; } else { NEED(c->getClass(ic) == i, "class order of %s", s->qualified().c_str()); ++ic; }
        break; }
    default: break;
    }
    NEED(!c->getMethod(im) && !c->getProperty(ip) && !c->getEnum(ie) && !c->getNamespace(in) && !c->getClass(ic), "%s has more items than declared", s->qualified().c_str());
    size_t n = 0; c->for_each_method([&](MetaMethod const *m) { NEED(m == c->getMethod(n), "method %zu of %s", n, s->qualified().c_str()); ++n; return true; }); NEED(n == im, "%s enumerates %zu of %zu methods", s->qualified().c_str(), n, im);
    n = 0; c->for_each_class([&](MetaClass const *m) { NEED(m == c->getClass(n), "class %zu of %s", n, s->qualified().c_str()); ++n; return true; }); NEED(n == ic, "%s enumerates %zu of %zu classes", s->qualified().c_str(), n, ic);
}
void relations(Spec *s, MetaClass const *c)
{
    if (mineFamily()) return;
    for (int b = 0; b < NT; ++b) {
        auto base = MetaNamespace::global()->getClass(t_name[b]); NEED(base, "%s is not there", t_name[b]);
        bool is = c->inheritedFrom(base), want = t_up[s->k].count(b); NEED(is == want, "%s is %s %s", t_name[s->k], is ? "derived from" : "not derived from", t_name[b]);
        if (want) { auto m = c->getMethod(t_method[b]); NEED(m && m->owner() == base, "%s does not find %s of its base", t_name[s->k], t_method[b]); auto p = c->getProperty(t_prop[b]); NEED(p && p->owner() == base, "%s does not find %s of its base", t_name[s->k], t_prop[b]); }
    }
    for (size_t i = 0; i < c->baseClassCount(); ++i) { auto b = c->baseClass(i); NEED(b && c->inheritedFrom(b), "base %zu of %s", i, t_name[s->k]); }
    size_t n = c->derivedClassCount(); for (size_t i = 0; i < n; ++i) { auto d = c->derivedClass(i); NEED(d && d->inheritedFrom(c), "derived class %zu of %s", i, t_name[s->k]); }
}
void verify(Spec *s, MetaContainer const *c)
{
    NEED(c->qualifiedName() == s->qualified(), "%s calls itself %s", s->qualified().c_str(), c->qualifiedName().c_str());
    counts(s, c); attributes(s, c); members(s, c);
    if (s->kind == FAMILY) relations(s, static_cast<MetaClass const*>(c));
    if (s->lazy() && !mine(s) && s->parent) NEED(s->runs == 1 && s->finished == 1, "%s was defined %d times, %d of them to the end", s->qualified().c_str(), s->runs.load(), s->finished.load());
}

// ---------------------------------------------------------------------------------------------- operations
enum OpKind { TYPEID, BYNAME, FACTS, VISIT, COUNT, ITEMS, QUALIFIED, ATTRS, FORCE, REG, UNREG, CONV, HAS, CAST, INHERIT, OWN, CALL, FIND, SHAREDNS, SHAREDVAR, MAKE, NOPS };
char const *const op_name[NOPS] = {"id", "by name", "facts", "visit", "count", "items", "qualified name", "attributes", "force", "register converter", "unregister converter", "convert", "has converter", "cast", "relations", "own variant", "call", "find class", "shared namespace", "shared variant", "construct"};
struct Plan { OpKind kind; int a, b, c; };
struct Result { long v = 0; };
int const NU = 12;

struct TypeOps { MetaType_ID (*id)(); std::string (*name)(); size_t size; bool cls; };
template<class T> TypeOps tops() { return {[] { return metaTypeId<T>(); }, [] { return std::string(type_name<T>()); }, sizeof(T), std::is_class_v<T>}; }
TypeOps type_op(int k, int form)
{
    TypeOps r{};
    with_index<NU>(k, [&](auto j) {
        using T = U<j()>;
        switch (form) { case 0: r = tops<T>(); break; case 1: r = tops<T*>(); break; case 2: r = tops<T const>(); break; case 3: r = tops<T[3]>(); break; case 4: r = tops<T const *const*>(); break; case 6: r = tops<T**>(); break; default: r = tops<V<j()>>(); }
    });
    return r;
}
MetaType_ID decayed(int k, int form) { static int const to[] = {0, 1, 0, 1, 6, 5}; return type_op(k, to[form]).id(); }

std::string const *shared_text = nullptr; variant const *shared_var = nullptr, *shared_ptr_var = nullptr; TD *shared_obj = nullptr;

template<int P> long convert(int val)
{
    variant v{From<P>{val}};
    try { auto r = v.to<To<P>>(); if (r.s != "converted, in a string which lives on the heap " + std::to_string(r.v - 100 * val)) return -2; return r.v - 100 * val; }
    catch (bad_variant_convert const &) { return -1; }
}
template<int P> long has() { return MetaType::hasConverter<From<P>, To<P>>(); }
template<int P> long reg_conv(int tag)
{ return MetaType::registerConverter<From<P>, To<P>>([tag, copy = std::string("converted, in a string which lives on the heap ") + std::to_string(tag)](From<P> const &f) { return To<P>{f.v * 100 + tag, copy}; }); }

template<class T, class F> void casts(F *p, T *want, char const *what)
{
    auto r = meta_cast<T>(p); NEED(r == want, "meta_cast %s gives %p instead of %p", what, (void const*)r, (void const*)want);
    auto q = meta_cast<T>(const_cast<F const*>(p)); NEED(q == want, "const meta_cast %s", what);
}
void op_cast(int a)
{
    if (mineFamily()) return;
    TD d; TF f; TE e;
    switch (a % 10) {
    case 0: casts<TD>(static_cast<TA*>(&d), &d, "TA -> TD"); break;
    case 1: casts<TB>(static_cast<TA*>(&d), static_cast<TB*>(&d), "TA -> TB"); break;
    case 2: casts<TE>(static_cast<TA*>(&d), (TE*)nullptr, "TA -> TE"); break;
    case 3: casts<TB>(static_cast<TA*>(&f), static_cast<TB*>(&f), "TA -> TB in TF"); break;
    case 4: casts<TF>(static_cast<TA*>(&e), (TF*)nullptr, "TA -> TF in TE"); break;
    case 5: { variant v{d}; NEED(v.ref<TA>().a == 11 && &v.ref<TB>() == static_cast<TB*>(&v.ref<TD>()), "TD in a variant as its bases"); try { v.ref<TE>(); bad("TD in a variant as TE"); } catch (bad_variant_cast const &) {} break; }
    case 6: { variant v{&d}; NEED(v.to<TB*>() == static_cast<TB*>(&d) && v.to<TC*>() == &d, "TD* in a variant as pointer to its bases"); break; }
    case 7: { TA *p = &f; variant v{p}; NEED(v.to<TF*>() == &f && v.to<TB*>() == static_cast<TB*>(&f), "TA* to TF in a variant"); break; }
    case 8: { variant v{std::ref(static_cast<TA&>(d))}; NEED(&v.ref<TB>() == static_cast<TB*>(&d) && v.ref<TD>().d == 44, "reference to TA in TD"); break; }
    default: { variant const v{f}; NEED(v.is<TB>() && v.is<TF>() && !v.is<TC>(), "classes of TF in a variant"); break; }
    }
}
void op_own(int a, int b)
{
    std::string text = "a string of the thread, on the heap: " + std::to_string(b);
    variant v{text}, w; TA ta; ta.a = b;
    switch (a % 6) {
    case 0: w = v; NEED(w == v && w.ref<std::string>() == text, "copied string"); w.ref<std::string>() += "!"; NEED(v.ref<std::string>() == text && w != v, "copies are separate"); break;
    case 1: w = variant{b}; { using std::swap; swap(v, w); } NEED(v.to<int>() == b && w.ref<std::string>() == text, "swapped"); v = std::move(w); NEED(v.ref<std::string>() == text && w.empty(), "moved"); break;
    case 2: { variant x{ta}; variant y{x}; y.ref<TA>().a = b + 1; NEED(x.ref<TA>().a == b && y.ref<TA>().a == b + 1, "copied object"); break; }
    case 3: { variant x{std::ref(text)}; x.ref<std::string>() += "?"; NEED(text.back() == '?' && v.ref<std::string>().back() != '?', "reference"); break; }
    case 4: { variant x{b}, y{b}; NEED(x == y && std::hash<variant>{}(x) == std::hash<variant>{}(y), "equal ints"); break; }
    default: { int arr[3] = {b, b + 1, b + 2}; variant x{arr}; variant y = x; NEED(y.ref<int[3]>()[2] == b + 2 && x == y, "array"); break; }
    }
}
void op_call(int a, int b)
{
    if (mineFamily()) return;
    TD d; TF f; TC c;
    switch (a % 5) {
    case 0: { variant v{d}; NEED(v.invoke("fa", b).to<int>() == 1011 + b && v.invoke("fd", b).to<int>() == 4044 + b, "methods of TD"); break; }
    case 1: { variant v{&f}; NEED(v.invoke("fb", b).to<int>() == 2022 + b && v.invoke("fe", b).to<int>() == 5055 + b, "methods of TF"); break; }
    case 2: { variant v{c}; v.set_property("b", b); NEED(v.ref<TC>().b == b && v.get_property("b").to<int>() == b && v.get_property("a").to<int>() == 11, "properties of TC"); break; }
    case 3: { variant v{std::ref(static_cast<TA&>(f))}; NEED(v.invoke("fa", b).to<int>() == 1011 + b, "method of a reference"); NEED(v.get_property("a").to<int>() == 11, "property of a reference"); break; }
    default: { variant v{d}; try { v.invoke("nothing", b); bad("invoked a missing method"); } catch (runtime_error const &) {} }
    }
}
void op_find(int a)
{
    int t = a % NT; MetaType_ID id = t == 0 ? metaTypeId<TA>() : t == 1 ? metaTypeId<TB>() : t == 2 ? metaTypeId<TC>() : t == 3 ? metaTypeId<TD>() : t == 4 ? metaTypeId<TE>() : metaTypeId<TF>();
    auto c = MetaClass::find(id); NEED(c && c->name() == t_name[t] && c->metaTypeId() == id, "class of %s", t_name[t]);
    NEED(MetaType{id}.metaClass() == c && MetaNamespace::global()->getClass(t_name[t]) == c, "two answers for the class %s", t_name[t]);
}
void op_shared()
{
    auto n = MetaNamespace::global()->getNamespace("shared"); NEED(n, "the shared namespace is not there");
    int before = W->sharedDone; size_t a = n->methodCount(); std::set<std::string> seen;
    n->for_each_method([&](MetaMethod const *m) { NEED(seen.insert(m->name()).second, "%s enumerated twice", m->name().c_str()); NEED(m->invoke(1).to<int>() == 101 && n->getMethod(m->name()) == m, "%s", m->name().c_str()); return true; });
    size_t b = n->methodCount(), at = n->attributeCount();
    NEED(a >= (size_t)before && seen.size() >= a && b >= seen.size() && at >= b && at <= (size_t)W->sharedPlanned, "the shared namespace has %d, then %zu, %zu, %zu methods and %zu attributes", before, a, seen.size(), b, at);
    for (size_t i = 0; i < at; ++i) { auto &v = n->attribute(i); auto &nm = n->attributeName(i); NEED(v.is<int>() && nm == "s" + std::to_string(v.cref<int>()) && &n->attribute(nm) == &v, "attribute %zu of the shared namespace", i); }
}
void op_sharedvar(int a)
{
    auto &v = *shared_var; auto &p = *shared_ptr_var;
    switch (a % 4) {
    case 0: { variant w = v; NEED(w == v && w.ref<std::string>() == *shared_text, "copy of a shared constant"); break; }
    case 1: NEED(v.cref<std::string>() == *shared_text && v.is<std::string>() && !v.empty(), "shared constant"); break;
    case 2: if (!mineFamily()) NEED(p.to<TB*>() == static_cast<TB*>(shared_obj), "shared pointer"); break;
    default: NEED(std::hash<variant>{}(v) == std::hash<variant>{}(variant{*shared_text}), "hash of a shared constant");
    }
}
void op_make(int a)
{
    int t = a % 3; auto c = MetaNamespace::global()->getClass(t == 0 ? "TA" : t == 1 ? "TD" : "TF"); NEED(c, "class to construct");
    auto k = c->defaultConstructor(); NEED(k, "default constructor of %s", c->name().c_str());
    variant v = k->invoke(); NEED(t == 0 ? v.is<TA>() && v.ref<TA>().a == 11 : t == 1 ? v.ref<TD>().d == 44 : v.ref<TF>().f == 66, "constructed %s", c->name().c_str());
    auto cc = c->copyConstructor(); NEED(cc, "copy constructor of %s", c->name().c_str());
    if (t == 0) { TA x; x.a = a; variant w = cc->invoke(x); NEED(w.ref<TA>().a == a, "copied TA"); }
    void *raw = MetaType{c->metaTypeId()}.construct(); NEED(raw, "raw construction"); MetaType{c->metaTypeId()}.destruct(raw);
}
long perform(Plan const &p)
{
    switch (p.kind) {
    case TYPEID: return (long)type_op(p.a, p.b).id().value();
    case BYNAME: { auto t = type_op(p.a, p.b); MetaType m{t.name()}; if (m.valid()) NEED(m.typeName() == t.name() && m.typeSize() == t.size, "type found by name %s has the name %s", t.name().c_str(), std::string(m.typeName()).c_str()); return (long)m.typeId().value(); }
    case FACTS: {
        auto t = type_op(p.a, p.b); MetaType m{t.id()}; NEED(m.valid() && m.typeSize() == t.size && m.typeName() == t.name() && !m.metaClass() && (!t.cls || m.isClass()), "facts of %s", t.name().c_str());
        NEED(m.decayId() == decayed(p.a, p.b), "decayed type of %s", t.name().c_str()); return (long)m.typeId().value(); }
    case VISIT: visit(W->nodes[(size_t)p.a]); return 0;
    case COUNT: if (auto c = navigate(W->nodes[(size_t)p.a])) counts(W->nodes[(size_t)p.a], c); return 0;
    case ITEMS: if (auto c = navigate(W->nodes[(size_t)p.a])) members(W->nodes[(size_t)p.a], c); return 0;
    case QUALIFIED: if (auto c = navigate(W->nodes[(size_t)p.a])) { auto &q = c->qualifiedName(); NEED(q == W->nodes[(size_t)p.a]->qualified(), "qualified name %s instead of %s", q.c_str(), W->nodes[(size_t)p.a]->qualified().c_str()); } return 0;
    case ATTRS: if (auto c = navigate(W->nodes[(size_t)p.a])) attributes(W->nodes[(size_t)p.a], c); return 0;
    case FORCE: if (auto c = navigate(W->nodes[(size_t)p.a])) {
        c->forceDeferredDefine(p.b ? MetaContainer::ForceDeferred::Recursive : MetaContainer::ForceDeferred::SelfOnly);
        struct Rec { static void check(Spec *s, bool deep) { if (s->lazy() && !mine(s)) NEED(s->finished == 1 && s->runs == 1, "%s is forced, and defined %d times", s->qualified().c_str(), s->finished.load()); if (deep && !mine(s)) for (auto &k : s->kids) check(k.get(), true); } };
        Rec::check(W->nodes[(size_t)p.a], p.b != 0); } return 0;
    case REG: { long r = 0; with_index<NP>(p.a, [&](auto j) { r = reg_conv<j()>(p.b); }); return r; }
    case UNREG: with_index<NP>(p.a, [&](auto j) { MetaType::unregisterConverter<From<j()>, To<j()>>(); }); return 0;
    case CONV: { long r = 0; with_index<NP>(p.a, [&](auto j) { r = convert<j()>(p.c); }); NEED(r != -2, "a converted value is broken"); return r; }
    case HAS: { long r = 0; with_index<NP>(p.a, [&](auto j) { r = has<j()>(); }); return r; }
    case CAST: op_cast(p.c); return 0;
    case INHERIT: { Spec *s = W->fam[(size_t)(p.c % NT)]; if (auto c = navigate(s)) relations(s, static_cast<MetaClass const*>(c)); return 0; }
    case OWN: op_own(p.a, p.c); return 0;
    case CALL: op_call(p.a, p.c); return 0;
    case FIND: op_find(p.c); return 0;
    case SHAREDNS: op_shared(); return 0;
    case SHAREDVAR: op_sharedvar(p.c); return 0;
    case MAKE: op_make(p.c); return 0;
    default: return 0;
    }
}

// ---------------------------------------------------------------------------------------------- drawing
struct Draw {
    pbt::Ctx &c; World &w; int names = 0, classes = 0, budget; std::vector<Spec*> early;
    void steps(Spec *s)
    {
        std::vector<int> m, p, e; auto fresh = [&](std::vector<int> &v, int n) { int k = (int)c.draw((uint64_t)n); for (int x : v) if (x == k) return -1; v.push_back(k); return k; };
        for (uint64_t n = c.draw(3); n--;) s->attrs.emplace_back("t" + std::to_string(s->attrs.size()), s->id * 10 + (int)n);
        bool fam = false, bases = s->kind != FAMILY || t_direct[s->k].empty(), fm = s->kind != FAMILY, fp = fm;
        uint64_t len = s->kind == FAMILY ? 3 + c.draw(4) : c.draw(7);
        (void)fam;
        for (uint64_t i = 0; i < len; ++i) switch (c.weighted({3, 2, 1, 4, 3, 2, 1})) {
            case 0: if (s->kind == FAMILY) { if (!fm) s->steps.push_back({METHOD, 0}); fm = true; } else if (int k = fresh(m, 6); k >= 0) s->steps.push_back({METHOD, k}); break;
            case 1: if (s->kind == FAMILY) { if (!fp) s->steps.push_back({PROP, 0}); fp = true; } else if (int k = fresh(p, s->kind == NS ? 4 : 3); k >= 0) s->steps.push_back({PROP, k}); break;
            case 2: if (s->kind == NS) { if (int k = fresh(e, 4); k >= 0) s->steps.push_back({ENUM, k}); } break;
            case 3: if (s->kind == NS && s->depth < 3 && budget > 0) { auto k = child(s); s->kids.push_back(std::move(k)); s->steps.push_back({KID, (int)s->kids.size() - 1}); } else if (!bases) { s->steps.push_back({BASES, 0}); bases = true; } break;
            case 4: s->steps.push_back({PAUSE, (int)c.draw(7)}); break;
            case 5: s->steps.push_back({QUERY, (int)c.draw(64)}); break;      // made a node afterwards
            default: s->steps.push_back({SHARED, w.sharedPlanned++}); break;
        }
        if (!bases) s->steps.push_back({BASES, 0});
        if (!fm) s->steps.push_back({METHOD, 0});
        if (!fp) s->steps.push_back({PROP, 0});
        s->attrsEager = s->attrs.size();
        if (s->parent && c.chance(3, 4)) {
            s->lazyFrom = c.draw(s->steps.size() + 1); if (c.chance(2, 3)) s->lazyFrom = 0;
            s->attrsEager = s->lazyFrom == 0 ? c.draw(s->attrs.size() + 1) : s->attrs.size();
        }
        // eager steps run in the main thread while not everything is there
        for (size_t i = 0; i < std::min(s->lazyFrom, s->steps.size()); ++i) if (s->steps[i].kind == QUERY) s->steps[i] = {PAUSE, 0};
    }
    std::unique_ptr<Spec> child(Spec *up)
    {
        auto s = std::make_unique<Spec>(); --budget; s->id = (int)w.nodes.size(); w.nodes.push_back(s.get()); s->parent = up; s->depth = up->depth + 1;
        if (classes < NK && c.chance(2, 5)) { s->kind = CLS; s->k = classes++; }
        s->name = (s->kind == NS ? "n" : "c") + std::to_string(names++); steps(s.get()); return s;
    }
};
} // namespace

static void describe(pbt::Ctx &c, Spec *s, int in)
{
    std::string t(in * 2, ' '); t += s->parent ? s->name : "(global)"; if (s->kind == CLS) t += " class K<" + std::to_string(s->k) + ">"; if (s->kind == FAMILY) t += " class";
    if (!s->attrs.empty()) t += " attributes " + std::to_string(s->attrsEager) + (s->attrs.size() > s->attrsEager ? "+" + std::to_string(s->attrs.size() - s->attrsEager) + " deferred" : "");
    t += ":"; for (size_t i = 0; i <= s->steps.size(); ++i) {
        if (i == s->lazyFrom) t += " | deferred:"; if (i == s->steps.size()) break;
        auto &st = s->steps[i]; static char const *const n[] = {"method", "property", "enum", "declares", "pause", "visits", "adds to shared", "bases"};
        t += std::string(" ") + n[st.kind]; if (st.kind == KID) t += " " + s->kids[(size_t)st.k]->name; else if (st.kind == QUERY) t += " " + W->nodes[(size_t)st.k]->qualified(); else if (st.kind != BASES) t += std::to_string(st.k);
    }
    c.note("%s", t.c_str()); for (auto &k : s->kids) describe(c, k.get(), in + 1);
}

struct Barrier { std::atomic<int> n{0}, gen{0}; int total = 0;
    void wait() { int g = gen.load(); if (n.fetch_add(1) + 1 == total) { n = 0; gen.fetch_add(1); } else { int i = 0; while (gen.load() == g) if (++i > 200) std::this_thread::yield(); } } };

// is there an order of the operations of a round (keeping each thread's own order) in which every result is right?
struct Lin { std::vector<std::vector<std::pair<Plan, long>>> ops; std::set<std::pair<std::vector<size_t>, long>> seen; std::set<long> ends;
    void run(std::vector<size_t> &pos, long state)
    {
        if (!seen.insert({pos, state}).second) return;
        bool end = true;
        for (size_t t = 0; t < ops.size(); ++t) if (pos[t] < ops[t].size()) {
            end = false; auto &[p, r] = ops[t][pos[t]]; long next = state; bool ok;
            if (p.kind == REG) { ok = (r != 0) == (state < 0); if (state < 0) next = p.b; } else if (p.kind == UNREG) { ok = true; next = -1; } else if (p.kind == CONV) ok = r == state; else ok = (r != 0) == (state >= 0);
            if (ok) { ++pos[t]; run(pos, next); --pos[t]; }
        }
        if (end) ends.insert(state);
    } };

static void threads(pbt::Ctx &c, std::initializer_list<unsigned> mix)
{
    World w; W = &w; running.clear();
    Draw d{c, w, 0, 0, (int)c.draw(12) + 1, {}};
    w.root.name = ""; w.nodes.push_back(&w.root);
    for (int t = 0; t < NT; ++t) { auto s = std::make_unique<Spec>(); s->kind = FAMILY; s->k = t; s->name = t_name[t]; s->parent = &w.root; s->depth = 1; s->id = (int)w.nodes.size(); w.nodes.push_back(s.get()); w.fam[(size_t)t] = s.get(); d.steps(s.get()); w.root.kids.push_back(std::move(s)); }
    do { auto k = d.child(&w.root); w.root.kids.push_back(std::move(k)); } while (d.budget > 0 && c.more(4));
    std::vector<Spec*> lazies;
    for (auto s : w.nodes) { for (auto &st : s->steps) if (st.kind == QUERY) st.k = 1 + st.k % ((int)w.nodes.size() - 1); if (s->lazy()) lazies.push_back(s); }
    size_t T = 2 + c.draw(3), R = 1 + c.draw(3);
    auto target = [&] { auto s = !lazies.empty() && c.chance(3, 4) ? lazies[c.draw(lazies.size())] : w.nodes[1 + c.draw(w.nodes.size() - 1)]; return s->id; };
    int tags = 0;
    auto draw = [&](OpKind k) {
        Plan p{k, 0, 0, 0};
        switch (k) {
        case TYPEID: case BYNAME: case FACTS: p.a = (int)c.draw(NU); p.b = (int)c.draw(6); break;
        case VISIT: case COUNT: case ITEMS: case QUALIFIED: case ATTRS: p.a = target(); break;
        case FORCE: p.a = c.chance(1, 6) ? 0 : target(); p.b = (int)c.draw(2); break;
        case REG: p.a = (int)c.draw(NP); p.b = tags++; break;
        case UNREG: case HAS: p.a = (int)c.draw(NP); break;
        case CONV: p.a = (int)c.draw(NP); p.c = (int)c.draw(50); break;
        case OWN: case CALL: p.a = (int)c.draw(30); p.c = (int)c.draw(1000); break;
        default: p.c = (int)c.draw(60);
        }
        return p;
    };
    std::vector<std::vector<std::vector<Plan>>> plan(R, std::vector<std::vector<Plan>>(T));
    bool contended = false;
    for (auto &round : plan) {
        Plan hot = draw((OpKind)c.weighted(mix)); int on = 0;
        for (auto &ops : round) {
            size_t n = 1 + c.draw(4); bool here = false;
            while (n--) {
                OpKind k = (OpKind)c.weighted(mix); Plan p = draw(k);
                if (c.chance(1, 2)) {                      // the same target as the others of this round
                    auto group = [](OpKind x) { return x <= FACTS ? 1 : x <= FORCE ? 2 : x >= REG && x <= HAS ? 3 : 4 + (int)x; };
                    if (group(k) != group(hot.kind)) p = draw(hot.kind);
                    p.a = hot.a; if (p.kind <= FACTS && c.chance(2, 3)) p.b = hot.b; if (p.kind == hot.kind && p.kind != REG) p.b = hot.b, p.c = hot.c;
                    here = true;
                }
                ops.push_back(p);
            }
            on += here;
        }
        contended |= on >= 2;
    }
    if (c.tracing()) {
        describe(c, &w.root, 0);
        for (size_t r = 0; r < R; ++r) for (size_t t = 0; t < T; ++t) { std::string s; for (auto &p : plan[r][t]) { s += std::string(" ") + op_name[p.kind]; if (p.kind <= FACTS) s += " type " + type_op(p.a, 0).name() + " form " + std::to_string(p.b); else if (p.kind <= FORCE) s += " " + (p.a ? w.nodes[(size_t)p.a]->qualified() : "(global)") + (p.b ? " recursively" : ""); else if (p.kind <= HAS) s += " pair " + std::to_string(p.a) + (p.kind == REG ? " tag " + std::to_string(p.b) : ""); else s += " " + std::to_string(p.c); s += ";"; } c.note("round %zu thread %zu:%s", r, t, s.c_str()); }
    }
    alarm(30);                                             // a deadlock ends the case
    // ---- declarations, by this thread
    {
        auto global = global_define(); auto g = static_cast<meta_define<void>>(global); g = g._namespace("shared")._end();
        for (auto &k : w.root.kids) {
            if (k->kind == FAMILY) with_index<NT>(k->k, [&](auto j) { using C = std::tuple_element_t<j(), std::tuple<TA, TB, TC, TD, TE, TF>>; auto x = g.template _class<C>(k->name); body<FAMILY, j(), 1>(x, k.get()); g = x._end(); });
            else if (k->kind == NS) { auto x = g._namespace(k->name); body<NS, 0, 1>(x, k.get()); g = x._end(); }
            else with_index<NK>(k->k, [&](auto j) { auto x = g.template _class<K<j()>>(k->name); body<CLS, j(), 1>(x, k.get()); g = x._end(); });
        }
    }
    // (a base is added in a deferred definition of its own, or eagerly: the bases are declared in order above)
    std::string text = "a constant which all threads read, too long for the small buffer"; variant const sv{text}; TD obj; variant const pv{static_cast<TA*>(&obj)}; shared_text = &text; shared_var = &sv; shared_ptr_var = &pv; shared_obj = &obj;
    // ---- the threads
    Barrier bar; bar.total = (int)T;
    std::vector<std::vector<std::vector<long>>> res(R, std::vector<std::vector<long>>(T));
    std::vector<std::thread> th;
    for (size_t t = 0; t < T; ++t) th.emplace_back([&, t] {
        for (size_t r = 0; r < R; ++r) {
            bar.wait();
            for (auto &p : plan[r][t]) {
                long v = 0;
                if (!w.stop) try { v = perform(p); }
                catch (Bad const &b) { w.report("thread " + std::to_string(t) + ", " + op_name[p.kind] + ": " + b.msg); }
                catch (std::exception const &e) { w.report("thread " + std::to_string(t) + ", " + op_name[p.kind] + ": unexpected exception: " + e.what()); }
                catch (...) { w.report("unexpected exception"); }
                res[r][t].push_back(v);
            }
        }
    });
    for (auto &t : th) t.join();
    c.check(w.fail.empty(), "%s", w.fail.c_str());
    // ---- ids
    std::map<std::pair<int, int>, long> ids; std::set<std::pair<int, int>> known;
    for (size_t r = 0; r < R; ++r) for (size_t t = 0; t < T; ++t) for (size_t i = 0; i < plan[r][t].size(); ++i) {
        auto &p = plan[r][t][i]; if (p.kind != TYPEID && p.kind != FACTS) continue;
        long v = res[r][t][i]; auto [it, fresh] = ids.emplace(std::pair{p.a, p.b}, v); c.check(v && it->second == v, "two threads got the ids %lx and %lx for the same type", it->second, v); }
    for (size_t r = 0; r < R; ++r) {
        for (size_t t = 0; t < T; ++t) { auto own = known; for (size_t i = 0; i < plan[r][t].size(); ++i) {
            auto &p = plan[r][t][i]; auto key = std::pair{p.a, p.b}; if (p.kind == TYPEID || p.kind == FACTS) own.insert(key); if (p.kind != BYNAME) continue;
            long v = res[r][t][i]; c.check(v || !own.count(key), "a registered type is not found by name"); if (v) { long id = (long)type_op(p.a, p.b).id().value(); c.check(v == id, "the type found by name has the id %lx, not %lx", v, id); } } }
        for (auto &ops : plan[r]) for (auto &p : ops) if (p.kind == TYPEID || p.kind == FACTS) known.insert({p.a, p.b});
    }
    std::map<long, std::pair<int, int>> back; for (auto &[k, v] : ids) c.check(back.emplace(v, k).second, "two types share an id");
    // ---- converters: some sequential order explains the results
    for (int p = 0; p < NP; ++p) {
        std::set<long> states{-1}; bool used = false;
        for (size_t r = 0; r < R; ++r) {
            Lin l; l.ops.resize(T);
            for (size_t t = 0; t < T; ++t) for (size_t i = 0; i < plan[r][t].size(); ++i) if (plan[r][t][i].kind >= REG && plan[r][t][i].kind <= HAS && plan[r][t][i].a == p) { l.ops[t].emplace_back(plan[r][t][i], res[r][t][i]); used = true; }
            for (long s : states) { std::vector<size_t> pos(T, 0); l.run(pos, s); }
            if (l.ends.empty()) { std::string m; for (size_t t = 0; t < T; ++t) { m += " thread " + std::to_string(t) + ":"; for (auto &[q, v] : l.ops[t]) m += std::string(" ") + op_name[q.kind] + (q.kind == REG ? " " + std::to_string(q.b) : "") + "=" + std::to_string(v); } c.fail("no sequential order explains the results for converter pair %d in round %zu:%s", p, r, m.c_str()); }
            states = l.ends;
        }
        if (used) c.label("converters");
    }
    // ---- at rest
    try { MetaNamespace::global()->forceDeferredDefine(MetaContainer::ForceDeferred::Recursive); for (auto s : w.nodes) { if (s->lazy()) NEED(s->runs == 1 && s->finished == 1, "%s was defined %d times", s->qualified().c_str(), s->runs.load()); if (s->parent) visit(s); } op_shared(); }
    catch (Bad const &b) { c.fail("afterwards: %s", b.msg.c_str()); }
    c.check(w.fail.empty(), "%s", w.fail.c_str());
    alarm(0);
    if (contended) c.nontrivial();
    if (!lazies.empty()) c.label("deferred definitions");
    for (auto s : lazies) if (s->count(QUERY)) { c.label("definitions which query others"); break; }
}
#define R_COMMON "a tree of up to 18 containers with nested deferred definitions which pause, query other containers and add to a shared one; 2 to 4 threads in up to 3 rounds; every result complete and right, converters linearizable, ids equal, each definition run once, no ThreadSanitizer report; non-trivial: two threads aim at the same target in one round; "
//                                                  ID NAME FACT VIS CNT ITEM QUAL ATTR FORCE REG UN CONV HAS CAST INH OWN CALL FIND SHNS SHV MAKE
LAW(registry, pbt::ISOLATED | pbt::RACY, 2400, 120000, R_COMMON "mostly queries")
{ threads(c, {                                      2, 1,   1,   5,  4,  4,   4,   4,   4,    1,  0, 1,   1,  3,   3,  1,  3,   1,   3,   1,  1 }); }
LAW(types, pbt::ISOLATED | pbt::RACY, 1600, 80000, R_COMMON "mostly first uses of types, converters and own variants")
{ threads(c, {                                      6, 4,   4,   1,  1,  0,   1,   0,   0,    5,  2, 6,   3,  1,   0,  3,  1,   2,   0,   2,  2 }); }
