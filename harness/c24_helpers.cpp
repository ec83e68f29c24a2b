// C24: scope guards run exactly once on every exit path, in reverse order; ids and bitmask enums behave like their values.
#include <pbt.hpp>
#include <rtti/metatype.h>
#include <rtti/finally.h>
#include <rtti/tagged_id.h>
#include <rtti/misc_traits.h>
#include <limits>
#include <memory>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
namespace {
// ---- programs of guarded blocks
enum Kind { LEAF, BLOCK, LOOP, FUNC, TRY, AGAIN, SWITCH, DISMISS, FUNCTOR, COND, REST, NKINDS };
enum Exit { FALL, BRK, CONT, RET, THR };
struct Node { int kind = LEAF, id = 0, exit = FALL, n = 0; std::vector<Node> kids; size_t half = 0; };
struct Ex { int id; };
using Log = std::vector<int>;
Log *g_log;
void log(int what, int id) { g_log->push_back(id * 16 + what); }
struct Loc { int id; explicit Loc(int i): id(i) { log(1, i); } ~Loc() { log(2, id); } };
struct Act { int id; std::shared_ptr<int> own = std::make_shared<int>(1); explicit Act(int i): id(i) {} void operator()() const { log(*own == 1 ? 3 : 15, id); } };
int g_plain; void plain_function() { log(4, g_plain); }
// a guard of the library's kind for any function object; where guards are no template of the function's type, a guarded call of it
template<class F> struct Calls { F f; ~Calls() { FINALLY { f(); }; } };
template<class G> struct Like { template<class F> using of = Calls<F>; };
template<template<class> class G, class L> struct Like<G<L>> { template<class F> using of = std::conditional_t<std::is_constructible_v<G<F>, F>, G<F>, Calls<F>>; };
template<class G, class F> auto guard_like(F &&f) { using T = typename Like<G>::template of<std::decay_t<F>>; return T{std::forward<F>(f)}; }

Exit exec(Node const &x);
Exit kids(Node const &x, size_t from, size_t to)
{
    for (size_t i = from; i < to; ++i) if (Exit r = exec(x.kids[i]); r != FALL) return r;
    return FALL;
}
Exit kids(Node const &x) { return kids(x, 0, x.kids.size()); }
void function(Node const &x)
{
    FINALLY { log(5, x.id); };
    Exit r = kids(x, 0, x.half); if (r == RET) return;
    FINALLY { log(6, x.id); };
    if (r == FALL) r = kids(x, x.half, x.kids.size());
    if (r != FALL) return;
    log(7, x.id);
}
Exit exec(Node const &x)
{
    switch (x.kind) {
    case LEAF:
        log(0, x.id);
        if (x.exit == THR) throw Ex{x.id};
        return (Exit)x.exit;
    case BLOCK: {
        int seen = 0;
        FINALLY { log(8, x.id); log(8, seen); };
        seen = x.id;
        if (Exit r = kids(x, 0, x.half); r != FALL) return r;
        Loc l{x.id};
        FINALLY { log(9, x.id); log(9, l.id); };
        FINALLY { FINALLY { log(10, x.id); }; try { FINALLY { log(11, x.id); }; throw Ex{0}; } catch (Ex &) { log(12, x.id); } };
        seen += 3;
        if (Exit r = kids(x, x.half, x.kids.size()); r != FALL) return r;
        log(7, x.id); break; }
    case LOOP:
        for (int i = 0; i < x.n; ++i) {
            FINALLY { log(5, x.id); log(13, i); };
            Exit r = kids(x); if (r == BRK) break; if (r == CONT) continue; if (r == RET) return RET;
            log(7, x.id);
        }
        log(14, x.id); break;
    case FUNC: function(x); log(14, x.id); break;
    case TRY:
        try { FINALLY { log(5, x.id); }; Exit r = kids(x, 0, x.half); if (r != FALL) return r; log(7, x.id); }
        catch (Ex &e) { FINALLY { log(6, x.id); log(6, e.id); }; Exit r = kids(x, x.half, x.kids.size()); if (r != FALL) return r; log(8, x.id); }
        break;
    case AGAIN: {
        int k = 0;
    again:
        ++k; FINALLY { log(5, x.id); log(13, k); };
        if (Exit r = kids(x); r != FALL) return r;
        if (k < x.n) goto again;
        break; }
    case SWITCH:
        switch (x.n) {
        case 0: { FINALLY { log(5, x.id); }; if (Exit r = kids(x); r != FALL) return r; break; }
        case 1: { FINALLY { log(6, x.id); }; if (Exit r = kids(x); r != FALL) return r; }      // falls through
        default: { FINALLY { log(8, x.id); }; log(7, x.id); }
        }
        break;
    case DISMISS: {
        FINALLY { log(5, x.id); };
        FINALLY_EX(guard) { log(6, x.id); };
        FINALLY_EX(other) { log(8, x.id); };
        if (Exit r = kids(x); r != FALL) return r;
        guard.dismiss(); if (x.n) other.dismiss(), other.dismiss();
        log(7, x.id); break; }
    case FUNCTOR: {
        Act act{x.id}; g_plain = x.id;
        FINALLY_EX(like) {};
        auto a = guard_like<decltype(like)>(act);
        auto b = guard_like<decltype(like)>(Act{x.id + 1});
        if (Exit r = kids(x); r != FALL) return r;
        g_plain = x.id; auto p = guard_like<decltype(like)>(&plain_function);
        log(7, x.id); break; }
    case COND:
        if (x.n & 1) { FINALLY { log(5, x.id); }; if (Exit r = kids(x); r != FALL) return r; }
        else { FINALLY { log(6, x.id); }; }
        for (int i = 0; i < x.n; ++i) if (i == 1) { FINALLY { log(8, x.id); }; break; }
        log(7, x.id); break;
    case REST: {                                                             // declared by a lambda which is left in several ways
        auto f = [&](int how) -> int { FINALLY { log(5, x.id); }; if (how == 0) return log(6, x.id), 1; Loc l{x.id}; if (how == 1) throw Ex{x.id}; return log(8, x.id), 2; };
        int got = 0; try { got = f(x.n); } catch (Ex &) { got = 3; }
        log(13, got);
        if (Exit r = kids(x); r != FALL) return r;
        break; }
    }
    return FALL;
}
// ---- the reference: the same language with an explicit stack of pending actions
struct Model {
    Log out; int thrown = 0;
    void put(int what, int id) { out.push_back(id * 16 + what); }
    using Act1 = std::function<void()>;
    Exit leave(std::vector<Act1> &st, Exit r) { while (!st.empty()) { auto a = st.back(); st.pop_back(); a(); } return r; }
    Exit kids(Node const &x, size_t from, size_t to) { for (size_t i = from; i < to; ++i) { Exit r = run(x.kids[i]); if (r != FALL) return r; } return FALL; }
    Exit kids(Node const &x) { return kids(x, 0, x.kids.size()); }
    Exit run(Node const &x)
    {
        std::vector<Act1> st; int id = x.id; Exit r;
        auto act = [&](int what) { st.push_back([=] { put(what, id); }); };
        switch (x.kind) {
        case LEAF: put(0, id); thrown = x.exit == THR ? id : thrown; return (Exit)x.exit;
        case BLOCK: {
            int seen = id; st.push_back([&] { put(8, id); put(8, seen); });
            if ((r = kids(x, 0, x.half)) != FALL) return leave(st, r);
            put(1, id); act(2); st.push_back([=] { put(9, id); put(9, id); }); st.push_back([=] { put(11, id); put(12, id); put(10, id); });
            seen += 3; r = kids(x, x.half, x.kids.size()); if (r == FALL) put(7, id);
            return leave(st, r); }
        case LOOP:
            for (int i = 0; i < x.n; ++i) {
                r = kids(x); if (r == FALL) put(7, id);
                put(5, id); put(13, i);
                if (r == BRK) break;
                if (r == RET || r == THR) return r;
            }
            put(14, id); return FALL;
        case FUNC:
            act(5); r = kids(x, 0, x.half);
            if (r == THR || r == RET) { leave(st, r); if (r == THR) return r; put(14, id); return FALL; }
            act(6); if (r == FALL) { r = kids(x, x.half, x.kids.size()); if (r == FALL) put(7, id); }
            leave(st, r); if (r == THR) return r;
            put(14, id); return FALL;
        case TRY:
            r = kids(x, 0, x.half); if (r == FALL) put(7, id);
            put(5, id);
            if (r != THR) return r;
            { int e = thrown; st.push_back([=] { put(6, id); put(6, e); }); r = kids(x, x.half, x.kids.size()); if (r == FALL) put(8, id); leave(st, r); }
            return r;
        case AGAIN:
            for (int k = 1;; ++k) {
                r = kids(x);
                if (r != FALL || k >= x.n) { put(5, id); put(13, k); return r; }
                put(5, id); put(13, k + 0);
            }
        case SWITCH:
            if (x.n < 2) { r = kids(x); put(x.n ? 6 : 5, id); if (r != FALL || x.n == 0) return r; }
            put(7, id); put(8, id); return FALL;
        case DISMISS:
            r = kids(x);
            if (r == FALL) { put(7, id); if (!x.n) put(8, id); put(5, id); }
            else { put(8, id); put(6, id); put(5, id); }
            return r;
        case FUNCTOR:
            r = kids(x); if (r == FALL) { put(7, id); put(4, id); }
            put(3, id + 1); put(3, id); return r;
        case COND:
            if (x.n & 1) { r = kids(x); put(5, id); if (r != FALL) return r; } else put(6, id);
            if (x.n > 1) put(8, id);
            put(7, id); return FALL;
        case REST:
            if (x.n == 0) { put(6, id); put(5, id); put(13, 1); }
            else if (x.n == 1) { put(1, id); put(2, id); put(5, id); put(13, 3); }
            else { put(1, id); put(8, id); put(2, id); put(5, id); put(13, 2); }
            return kids(x);
        }
        return FALL;
    }
};
char const *const kind_names[] = {"leaf", "block", "loop", "func", "try", "again", "switch", "dismiss", "functor", "cond", "lambda"};
Node gen(pbt::Ctx &c, int depth, int &ids, int &leaves, std::string &s)
{
    Node x; x.id = ids += 2;
    x.kind = depth <= 0 ? LEAF : (int)c.draw(NKINDS); x.n = (int)c.draw(4);
    if (x.kind == LEAF) { x.exit = (int)c.weighted({4, 1, 1, 1, 1}); ++leaves; char const *const e[] = {"fall", "break", "continue", "return", "throw"}; s += std::string(e[x.exit]) + std::to_string(x.id) + ";"; return x; }
    s += std::string(kind_names[x.kind]) + std::to_string(x.id) + "(" + std::to_string(x.n) + "){";
    size_t n = c.draw(4); x.half = n ? c.draw(n + 1) : 0;
    for (size_t i = 0; i < n; ++i) { if (i == x.half) s += "|"; x.kids.push_back(gen(c, depth - 1 - (int)c.draw(2), ids, leaves, s)); }
    s += "}"; return x;
}
LAW(guards, pbt::LEAKS, 120000, 4000000, "random programs (blocks, loops, functions, lambdas, try/catch, goto, switch, conditions, dismissed, functor and function-pointer guards, guards within actions of guards), nested up to 5 deep, left by falling through, break, continue, return and exceptions; the recorded actions against an interpreter with an explicit stack; non-trivial: at least 3 guarded constructs")
{
    int ids = 0, leaves = 0; std::string s; Node p; p.kind = BLOCK; p.id = 1;
    do { p.kids.push_back(gen(c, 5, ids, leaves, s)); } while (ids < 120 && c.more(3));
    p.half = c.draw(p.kids.size() + 1); c.note("%s", s.c_str());
    Log got; got.reserve(4096); g_log = &got; Exit r = FALL; int e = 0;
    try { r = exec(p); } catch (Ex &x) { r = THR; e = x.id; }
    Model m; Exit w = m.run(p);
    c.check(r == w && (r != THR || e == m.thrown), "%s: left by %d, should be left by %d", s.c_str(), r, w);
    for (size_t i = 0; i < std::max(got.size(), m.out.size()); ++i)
        c.check(i < got.size() && i < m.out.size() && got[i] == m.out[i], "%s: action %zu is %d of node %d, should be %d of node %d", s.c_str(), i, i < got.size() ? got[i] % 16 : -1, i < got.size() ? got[i] / 16 : -1,
                i < m.out.size() ? m.out[i] % 16 : -1, i < m.out.size() ? m.out[i] / 16 : -1);
    c.label(r == THR ? "left by exception" : r == FALL ? "fell through" : "left early");
    if (ids / 2 - leaves >= 3) c.nontrivial();
}
// ---- ids
struct TagA; struct TagB; enum class Color: short { none = -3, red = 0, green = 1 };
template<class T> T value(pbt::Ctx &c)
{
    if constexpr (std::is_same_v<T, bool>) return c.draw(2);
    else if constexpr (std::is_enum_v<T>) return (T)c.range(-4, 4);
    else switch (c.draw(4)) {
        case 0: return (T)c.range(-3, 3);
        case 1: return std::numeric_limits<T>::max() - (T)c.draw(2);
        case 2: return std::numeric_limits<T>::min() + (T)c.draw(2);
        default: return (T)((c.draw(1u << 30) << 34) ^ c.draw(1u << 30));
    }
}
template<class ID> void ids(pbt::Ctx &c, char const *name)
{
    using T = typename ID::type; std::vector<T> vs; std::vector<ID> is; std::unordered_set<ID> set; std::unordered_map<ID, size_t> map; std::unordered_map<T, size_t> ref; std::unordered_set<T> rset;
    do {
        T v = !vs.empty() && c.chance(1, 4) ? c.pick_of(vs) : c.chance(1, 6) ? ID::Default : value<T>(c);
        ID i{v}; if (c.chance(1, 5)) { ID k; c.check(k.value() == ID::Default && !k.valid() && k == ID{} && k == ID{ID::Default}, "%s: a default id is not invalid", name); k = i; i = k; }
        ID const ci = i; ID &mi = i; c.check(i.value() == v && ci.value() == v && static_cast<T>(ci) == v && static_cast<T>(mi) == v && static_cast<T>(ID{v}) == v && (ci == mi) && !(ci != mi) && ci.valid() == mi.valid(), "%s: holds another value", name); c.check(i.valid() == (v != ID::Default), "%s: valid() is %d for %lld", name, i.valid(), (long long)v);
        c.check(std::hash<ID>{}(i) == std::hash<T>{}(v), "%s: hash of %lld", name, (long long)v);
        for (size_t k = 0; k < vs.size(); ++k) {
            c.check((i == is[k]) == (v == vs[k]) && (is[k] == i) == (v == vs[k]), "%s: %lld == %lld is wrong", name, (long long)v, (long long)vs[k]);
            c.check((i != is[k]) == (v != vs[k]) && (is[k] != i) == (v != vs[k]), "%s: %lld != %lld is wrong", name, (long long)v, (long long)vs[k]);
        }
        c.check(set.insert(i).second == rset.insert(v).second && map.emplace(i, vs.size()).second == ref.emplace(v, vs.size()).second, "%s: %lld as a key", name, (long long)v);
        vs.push_back(v); is.push_back(i);
    } while (vs.size() < 12 && c.more(6));
    for (size_t k = 0; k < vs.size(); ++k) c.check(map.at(is[k]) == ref.at(vs[k]), "%s: %lld finds another entry", name, (long long)vs[k]);
    c.note("%s, %zu values", name, vs.size()); c.label(name);
    if (vs.size() >= 2) c.nontrivial();
}
LAW(tagged_ids, pbt::LEAKS, 60000, 1500000, "ids over 9 value types with different reserved values, values from the boundaries and repeated ones, compared pairwise and used as keys of hashed containers, against the plain values; non-trivial: at least 2 values")
{
    switch (c.draw(9)) {
    case 0: return ids<rtti::MetaType_ID>(c, "MetaType_ID");
    case 1: return ids<mpl::ID<TagA, int, -1>>(c, "int, -1");
    case 2: return ids<mpl::ID<TagB, unsigned char, 255>>(c, "unsigned char, 255");
    case 3: return ids<mpl::ID<TagA, bool, false>>(c, "bool, false");
    case 4: return ids<mpl::ID<TagA, Color, Color::none>>(c, "enum, none");
    case 5: return ids<mpl::ID<TagA, signed char, -128>>(c, "signed char, -128");
    case 6: return ids<mpl::ID<TagB, unsigned long, 7>>(c, "unsigned long, 7");
    case 7: return ids<mpl::ID<TagB, long, 0>>(c, "long, 0");
    default: return ids<mpl::ID<TagB, char16_t, u'x'>>(c, "char16_t, x");
    }
}
static_assert(mpl::ID<TagA, int, -1>{} == mpl::ID<TagA, int, -1>{-1} && mpl::ID<TagA, int, -1>{5} != mpl::ID<TagA, int, -1>{} && mpl::ID<TagA, int, -1>{5}.valid() && static_cast<int>(mpl::ID<TagA, int, -1>{7}) == 7 && mpl::ID<TagA, int, -1>{7}.value() == 7, "ids are usable in constant expressions");
static_assert(!std::is_convertible_v<int, mpl::ID<TagA, int, -1>> && !std::is_convertible_v<mpl::ID<TagA, int, -1>, int> && !std::is_convertible_v<mpl::ID<TagA, int, -1>, mpl::ID<TagB, int, -1>>, "ids convert only explicitly");
// ---- bitmasks
enum class M8: unsigned char {}; enum class M16: short {}; enum class M32: unsigned {}; enum class M64: unsigned long {}; enum class S8: signed char {};
} // namespace
namespace rtti { BITMASK_ENUM(M8) BITMASK_ENUM(M16) BITMASK_ENUM(M32) BITMASK_ENUM(M64) BITMASK_ENUM(S8) }
namespace {
template<class E> void mask(pbt::Ctx &c, char const *name)
{
    using namespace rtti; using T = std::underlying_type_t<E>; T a = value<T>(c), b = value<T>(c); E x = (E)a, y = (E)b;
    c.check((T)(x | y) == (T)(a | b) && (T)(y | x) == (T)(a | b), "%s: %lld | %lld", name, (long long)a, (long long)b);
    c.check((T)(x & y) == (T)(a & b) && (T)(y & x) == (T)(a & b), "%s: %lld & %lld", name, (long long)a, (long long)b);
    c.check(!((x & y) == E{}) == !!(a & b), "%s: test of %lld & %lld", name, (long long)a, (long long)b);
    c.label(name); c.note("%s %lld %lld", name, (long long)a, (long long)b); if (a && b) c.nontrivial();
}
LAW(bitmasks, pbt::LEAKS, 40000, 400000, "two random values of 6 flag enumerations are combined by | and &, against the plain integers; non-trivial: both are not zero")
{
    switch (c.draw(6)) {
    case 0: return mask<M8>(c, "unsigned char"); case 1: return mask<M16>(c, "short"); case 2: return mask<M32>(c, "unsigned");
    case 3: return mask<M64>(c, "unsigned long"); case 4: return mask<S8>(c, "signed char"); default: return mask<rtti::TypeFlags>(c, "TypeFlags");
    }
}
} // namespace
