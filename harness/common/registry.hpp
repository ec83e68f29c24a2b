// Random declaration histories over the whole registry (C16, C18, C19, C20), compared step by step with a model.
//
// The model follows every declaration as it happens, inside deferred definitions too: what a deferred definition
// declares is drawn when the library calls it, and its entry is judged (once, and only when something which may need
// it is being asked).
#pragma once
#include <pbt.hpp>
#include <rtti/metadefine.h>
#include <rtti/metanamespace.h>
#include <rtti/metaclass.h>
#include <rtti/metaenum.h>
#include <rtti/metaerror.h>
#include <rtti/variant.h>
#include <array>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>

namespace reg {
using namespace rtti;
constexpr int N = 12;
template<class...> struct L {};
template<int I> struct RC;
template<int I> struct BasesOf { using type = L<>; };
template<> struct BasesOf<3> { using type = L<RC<0>>; };
template<> struct BasesOf<4> { using type = L<RC<1>, RC<2>>; };
template<> struct BasesOf<5> { using type = L<RC<3>, RC<4>>; };
template<> struct BasesOf<6> { using type = L<RC<5>>; };
template<> struct BasesOf<8> { using type = L<RC<7>>; };
template<class> struct From;
template<class... B> struct From<L<B...>>: B... {};
template<int I> struct RC: From<typename BasesOf<I>::type> {
    int a = I * 100 + 50, b = I * 100 + 51, made = 0, acc = I * 100 + 53; int const k = I * 100 + 54; static inline int s = I * 100 + 52;
    RC() = default; RC(RC const &o): From<typename BasesOf<I>::type>(o), a(o.a), made(o.made) {} RC(RC &&o): From<typename BasesOf<I>::type>(std::move(o)), a(o.a), made(o.made) { o.a = -1; }
    explicit RC(int): made(1) {} RC(int, int): made(2) {}
    int m0(int) { return I * 100; } int m1(int) { return I * 100 + 1; } int m2() const { return I * 100 + 2; } int m3(int, int) const { return I * 100 + 3; } int m4(int) const { return I * 100 + 4; }
    static int f5(int) { return I * 100 + 5; } static int f6(int) { return I * 100 + 6; } static int f7() { return I * 100 + 7; }
    int get() const { return acc; } void set(int v) { acc = v; }
};
enum class E { A, B, C }; enum E2: char { X };
constexpr int METHODS = 8, PROPS = 5, CTORS = 4, NMETHODS = 5, NPROPS = 4;
inline int n0(int) { return 10000; } inline int n1(int) { return 10001; } inline int n2() { return 10002; } inline int n3(int, int) { return 10003; } inline int n4(double) { return 10004; }
inline int gv[NPROPS] = {10050, 10051, 10052, 10053};
std::string method_sig(int type, int k, std::string const &name);       // the full signature of function k of a class (type -1: of a namespace)

struct Val { int kind = 0; long n = 0; };
struct Def;
struct Node {
    MetaCategory cat; std::string name, base; Node *owner; int type = -1, fn = -1; MetaItem const *item = nullptr;        // base: a method's name without parameters
    std::vector<Node *> kids[mcatCount]; std::vector<std::pair<std::string, Val>> attrs, elems; std::vector<int> bases, derived; std::shared_ptr<Def> def;
    Node *kid(MetaCategory c, std::string const &n) { for (auto *k : kids[c]) if (k->name == n) return k; return nullptr; }
    bool container() const { return cat == mcatNamespace || cat == mcatClass; }
    std::string path() const { return owner ? owner->path() + "::" + name : ""; }
};
struct Def { Node *n; int content; bool ran = false, running = false, foreign = false; };      // foreign: given by the deferred definition of something else

enum Kind { STOP, NS, CLASS, ENUM, ELEMENT, METHOD, PROP, CTOR, BASE, ATTR, LAZY, QUERY, ELSEWHERE, KINDS };
struct Mix { unsigned ns[KINDS], cls[KINDS]; unsigned query[9]; };
struct Op { int kind = STOP; std::string name; int k = 0; Val v; bool abandon = false; };

struct World;
struct Ask {                                                             // a call of the library is going on: which deferred definitions it may start
    World &w; std::function<bool(Node *)> may; std::vector<std::shared_ptr<Def>> musts; bool up = false, dirty = false; char const *what;
    Ask(World &, char const *what, std::function<bool(Node *)>); ~Ask(); Ask(Ask const &) = delete;
    Ask &must(Node *n) { if (n->def && !n->def->running) musts.push_back(n->def); return *this; }
    void done();
};
struct World {
    pbt::Ctx &c; Mix const &mix; std::vector<std::unique_ptr<Node>> all; Node *root; Node *cls[N] = {}; std::map<void const *, Node *> byItem; std::vector<Ask *> asks;
    std::vector<Def *> running; std::vector<std::unique_ptr<Ask>> denied; int budget = 0, depth = 0, elsewhere = 0; bool abandon = false; int repeats = 0, ran = 0, nested = 0, overwrites = 0, refused = 0, reentrant = 0, spent = 0; std::vector<int> ids;
    World(pbt::Ctx &, Mix const &);
    // drawing
    std::string name(); Val value(bool lvalueVariant); Op next(Node *n, int depth, bool attrOk, bool enumOpen, int type);
    // the model
    Node *add(Node *owner, MetaCategory, std::string const &name, int type = -1, int fn = -1, std::string const &base = {});      // declared or found
    void store(std::vector<std::pair<std::string, Val>> &, std::string const &, Val);
    std::shared_ptr<Def> defer(Node *n); void enter(Def &); void leave(Def &);
    void touched(Node *cls);                                              // methods, properties or bases of a class were declared
    bool within(Node *n, Node *top) { for (; n; n = n->owner) if (n == top) return true; return false; }
    bool above(Node *n, Node *b) { if (n == b) return true; for (int x : n->bases) if (above(cls[x], b)) return true; return false; }
    // queries
    void same(Node *n, MetaItem const *item, char const *how); MetaItem const *resolve(Node *n);
    void query(); void query(Node *n); void verify(Node *n, bool deep); void everything();
    void lookups(Node *n); void facts(Node *n); void attributes(Node *n); void elements(Node *n); void classFacts(Node *n, bool full); void inherited(Node *n); void find(int i); void finds(); void force(Node *n, bool all); void use(Node *n);
};
struct ClassOps { MetaType_ID (*id)(); std::string (*typeName)(); long (*call)(MetaMethod const *, int); long (*get)(MetaProperty const *, int); long (*make)(MetaConstructor const *, int); };
inline ClassOps ops[N];

using N0 = meta_define<void, void>; using N1 = meta_define<void, N0>; using N2 = meta_define<void, N1>; using N3 = meta_define<void, N2>;
template<class C, class T> std::string fresh(T const &s) { return C(s.begin(), s.end()); }

// how values reach the library
template<class F> void with_value(Val v, F &&f)
{
    switch (v.kind) {
    case 0: f((int)v.n); break;
    case 1: { std::string const s = "s" + std::to_string(v.n); f(s); break; }
    case 2: { double d = (double)v.n / 4; f(d); d = -1; break; }
    case 3: f(variant{(int)v.n}); break;
    case 4: f(std::vector<int>{(int)v.n, 1}); break;
    case 5: f((E)v.n); break;
    }
}
template<class D> void give_lvalue(D &d, std::string const &name, Val v, pbt::Ctx &c)
{ variant x{(int)v.n}; d._attribute(name, x); c.check(x.ref<int>() == (int)v.n, "the attribute's value was taken from an lvalue"); x = variant{-7}; }

template<int I, class D> bool class_in(World &w, D &d, Node *n, std::string const &name, bool byType);        // defined per class
void history(pbt::Ctx &c, Mix const &mix, int budget, std::function<bool(World &)> nontrivial);
template<class D> bool class_any(World &w, D &d, Node *n, std::string const &name, int i, bool byType);

// the parts common to namespace and class definitions; true if done
template<class D> bool common_op(World &w, D &d, Node *n, Op const &o, Node *&attr, Node *&en)
{
    auto self = [n](Node *x) { return x == n; };
    switch (o.kind) {
    case ENUM: { std::string nm = o.name; { Ask a(w, "_enum", self); if (o.k) d = d.template _enum<E>(nm); else d = d.template _enum<E2>(nm); } nm.assign(nm.size(), '#'); en = attr = w.add(n, mcatEnum, o.name); return true; }
    case ELEMENT: { std::string nm = o.name; { Ask a(w, "_element", [](Node *) { return false; }); with_value(o.v, [&](auto &&v) { d = d._element(nm, std::forward<decltype(v)>(v)); }); } nm.assign(nm.size(), '#'); w.store(en->elems, o.name, o.v); return true; }
    case ATTR: { std::string nm = o.name; { Ask a(w, "_attribute", [](Node *) { return false; }); if (o.v.kind == 6) give_lvalue(d, nm, o.v, w.c); else with_value(o.v, [&](auto &&v) { d = d._attribute(nm, std::forward<decltype(v)>(v)); }); } nm.assign(nm.size(), '#'); w.store(attr->attrs, o.name, o.v); return true; }
    default: return false;
    }
}
template<int Depth, class D> void ns_body(World &w, D d, Node *n)
{
    Node *attr = n, *en = nullptr; auto self = [n](Node *x) { return x == n; };
    for (;;) {
        Op o = w.next(n, Depth, attr != nullptr, en && attr == en, -1);
        if (o.kind == STOP) { if (o.abandon) w.abandon = true; return; }
        if (common_op(w, d, n, o, attr, en)) continue;
        std::string nm = o.name;
        switch (o.kind) {
        case NS: if constexpr (Depth < 3) {
            Node *ch; std::optional<meta_define<void, D>> x; { Ask a(w, "_namespace", self); x.emplace(d._namespace(nm)); } nm.assign(nm.size(), '#'); ch = w.add(n, mcatNamespace, o.name);
            ns_body<Depth + 1>(w, *x, ch); if (w.abandon) return; d = x->_end(); attr = n; en = nullptr; } break;
        case CLASS: if (class_any(w, d, n, nm, o.k, o.v.kind & 1)) { attr = n; en = nullptr; } if (w.abandon) return; break;
        case METHOD: { Ask a(w, "_method", self); switch (o.k) { case 0: d = d._method(nm, n0); break; case 1: d = d._method(nm, &n1); break; case 2: d = d._method(nm, &n2); break; case 3: d = d._method(nm, &n3); break; default: d = d._method(nm, &n4); } nm.assign(nm.size(), '#'); }
            w.add(n, mcatMethod, method_sig(-1, o.k, o.name), -1, o.k, o.name); attr = nullptr; break;
        case PROP: { Ask a(w, "_property", self); d = d._property(nm, &gv[o.k]); nm.assign(nm.size(), '#'); } w.add(n, mcatProperty, o.name, -1, o.k); attr = nullptr; break;
        case LAZY: {
            auto was = n->def; auto def = was ? nullptr : w.defer(n); bool refused = false; World *pw = &w;
            { Ask a(w, "_lazy", [](Node *) { return false; }); try { d = d._lazy([pw, def](N0 x) { if (!def) pw->c.fail("a refused deferred definition was executed"); pw->enter(*def); ns_body<1>(*pw, x, def->n); pw->abandon = false; pw->leave(*def); }); } catch (definition_error const &) { refused = true; } }
            w.c.check(refused == !!was, "a deferred definition of %s is %s while %s is pending", n->path().c_str(), refused ? "refused" : "accepted", was ? "one" : "none");
            if (refused) ++w.refused; break; }
        case QUERY: w.query(); break;
        case ELSEWHERE: { ++w.elsewhere; auto g = global_define(); ns_body<1>(w, static_cast<N0>(g), w.root); w.abandon = false; --w.elsewhere; break; }
        default: break;
        }
    }
}
} // namespace reg
