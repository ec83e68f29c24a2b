// Classes with generated sets of constructors (C14).
#pragma once
#include <common/calls.hpp>

namespace ctors {
using namespace calls;

enum Special { BY_NEITHER, BY_DEFAULT, BY_COPY, BY_MOVE };
// What every generated class stores: where it came from. Objects which were moved from do not count as live (C02 judges those).
struct Obj {
    static inline long live = 0, made = 0; static inline int boom = -1; static inline Special last = BY_NEITHER;      // boom: the special member that throws
    long h = 0; bool gone = false; std::unique_ptr<long> own;
    Obj() { ++live; ++made; }
    Obj(Obj const &o): h(o.h), gone(o.gone), own(o.own ? new long(*o.own) : nullptr) { live += !gone; ++made; }
    Obj(Obj &&o) noexcept: h(o.h), gone(o.gone), own(std::move(o.own)) { o.gone = true; o.h = -7; ++made; }
    Obj &operator=(Obj const &) = delete;
    ~Obj() { live -= !gone; }
    void set(long v) { h = v; own.reset(new long(v)); }
    bool sound() const { return !gone && own && *own == h; }
    static void special(Special s) { last = s; if (boom == s) throw Boom{1000 + s}; }
};
struct Seed { long v; };                                     // the harness' own constructor, never registered

struct Class;
struct Ctor {
    Sig sig; std::string full;                               // full: "(parameter types)"
    void (*declare)(Class const &, std::string const &);
    rtti::MetaConstructor const *(*typed)(rtti::MetaClass const &, std::string const &);      // looked up by parameter types
};
struct Forms { bool isConst, isLvalue; };
enum Source { S_LV, S_CLV, S_RV, S_VAR, S_CVAR, S_RVAR, S_REF, S_KREF, S_RREF, S_CRVAR, SOURCES };
inline char const *source_name(int s) { static char const *n[] = {"lvalue", "const lvalue", "rvalue", "variant", "const variant", "variant rvalue", "variant of ref", "variant of cref", "rvalue variant of ref", "const variant rvalue"}; return n[s]; }
struct Class {
    char const *name; rtti::MetaType_ID (*id)(); bool dflt, copy, move, realMove; int index;
    std::vector<Ctor> ctors;
    void (*open)(Class const &);
    void (*redeclare)(Class const &, int, std::string const &);      // declares a special constructor again
    void (*special)(pbt::Ctx &, Class const &, int what);
};
inline std::vector<Class> &classes() { static std::vector<Class> c; return c; }
inline std::string class_name(Class const &k) { return std::string("K_") + k.name; }

template<class K> bool check_result(variant &v, long h)
{
    auto *p = const_cast<variant const &>(v).data<K>();
    return p && v.typeId() == rtti::metaTypeId<K>() && p->o.sound() && p->o.h == h && v.data<K>() == p;
}
template<class K> void open_class(Class const &k) { rtti::global_define()._class<K>(class_name(k)); }
template<class K, class... P> void declare_ctor(Class const &k, std::string const &name) { rtti::global_define()._class<K>(class_name(k)).template _constructor<P...>(name); }
template<class K> void redeclare_special(Class const &k, int what, std::string const &name)
{
    auto d = rtti::global_define()._class<K>(class_name(k));
    if constexpr (std::is_default_constructible_v<K>) if (what == BY_DEFAULT) d._constructor(name);
    if constexpr (std::is_copy_constructible_v<K>) if (what == BY_COPY) d.template _constructor<K const &>(name);
    if constexpr (std::is_move_constructible_v<K>) if (what == BY_MOVE) d.template _constructor<K &&>(name);
}
template<class K, class... P> Ctor make_ctor(int id) { return Ctor{Sig{id, {make_param<P>()...}, check_result<K>, "object", nullptr}, rtti::signature<P...>::get(""), declare_ctor<K, P...>, [](rtti::MetaClass const &m, std::string const &n) { return n.empty() ? m.getConstructor<P...>() : m.getConstructor<P...>(n); }}; }

// invokes the default, copy or move constructor of K
template<class K> void run_special(pbt::Ctx &c, Class const &k, int what)
{
    auto const *mc = rtti::MetaClass::find(rtti::metaTypeId<K>()); c.check(mc != nullptr, "%s is not registered", k.name);
    auto const *m = what == BY_DEFAULT ? mc->defaultConstructor() : what == BY_COPY ? mc->copyConstructor() : mc->moveConstructor();
    bool have = what == BY_DEFAULT ? k.dflt : what == BY_COPY ? k.copy : k.move;
    c.check((m != nullptr) == have, "%s has %s %s constructor", k.name, m ? "a" : "no", what == BY_DEFAULT ? "default" : what == BY_COPY ? "copy" : "move");
    if (!m) { c.label("no such constructor"); return; }
    long live = Obj::live; bool boom = c.chance(1, 6); Outcome o; long seed = c.range(1, 99);
    if (what == BY_DEFAULT) {
        bool extra = c.chance(1, 5); variant r; int x = 1; Obj::boom = boom ? BY_DEFAULT : -1; Obj::last = BY_NEITHER; long made = Obj::made; bool throws = boom && K::traced_default;
        c.note("default constructor of %s%s%s", k.name, extra ? " with an argument" : "", boom ? ", throwing" : "");
        o = attempt([&] { r = extra ? m->invoke(x) : m->invoke(); }); Obj::boom = -1;
        if (extra) { c.check(o == INVOKEERR && r.empty() && Obj::made == made, "default constructor of %s with an argument %s", k.name, outcome_name(o)); c.label("refused"); }
        else if (throws) { c.check(o == THREW && r.empty(), "default constructor of %s %s although it threw", k.name, outcome_name(o)); c.label("threw"); }
        else {
            auto *p = const_cast<variant const &>(r).data<K>();
            if constexpr (std::is_default_constructible_v<K>) { K direct; c.check(o == RETURNED && p && r.typeId() == rtti::metaTypeId<K>() && p->o.h == direct.o.h && p->o.sound() && r.data<K>(), "default constructor of %s %s, or made another object", k.name, outcome_name(o)); }
        }
        c.nontrivial(); r.clear();
    } else if constexpr (std::is_copy_constructible_v<K> || std::is_move_constructible_v<K>) {
        int s = (int)c.draw(SOURCES); std::unique_ptr<K> x{new K(Seed{seed})}; variant v, r; K const *src = x.get();
        switch (s) {
        case S_VAR: case S_CVAR: case S_RVAR: case S_CRVAR: v = variant{K(Seed{seed})}; src = const_cast<variant const &>(v).data<K>(); break;
        case S_REF: case S_RREF: v = variant{std::ref(*x)}; break;
        case S_KREF: v = variant{std::cref(*x)}; break;
        }
        int n = c.chance(1, 8) ? (c.chance(1, 2) ? 0 : 2) : 1;           // arguments
        bool wrong = n == 1 && c.chance(1, 10); Other other{3};           // an argument of another class
        c.note("%s constructor of %s from a%s %s%s%s", what == BY_COPY ? "copy" : "move", k.name, wrong ? " wrong" : "", source_name(s), n == 1 ? "" : n ? " with 2 arguments" : " without arguments", boom ? ", throwing" : "");
        Obj::boom = boom ? what == BY_MOVE && !k.realMove ? BY_COPY : what : -1; Obj::last = BY_NEITHER; long made = Obj::made, liveIn = Obj::live;
        o = attempt([&] {
            if (n == 0) { r = m->invoke(); return; }
            if (wrong) { r = m->invoke(std::move(other)); return; }
            if (n == 2) { r = m->invoke(*x, 1); return; }
            switch (s) {
            case S_LV: r = m->invoke(*x); break;
            case S_CLV: r = m->invoke(const_cast<K const &>(*x)); break;
            case S_RV: r = m->invoke(std::move(*x)); break;
            case S_RVAR: case S_RREF: r = m->invoke(std::move(v)); break;
            case S_CVAR: r = m->invoke(const_cast<variant const &>(v)); break;
            case S_CRVAR: r = m->invoke(std::move(const_cast<variant const &>(v))); break;
            default: r = m->invoke(v); break;
            }
        });
        Obj::boom = -1;
        bool throws = boom && (what == BY_COPY ? K::copy_throws : K::move_throws);
        bool rv = s == S_RV || s == S_RVAR || s == S_RREF;
        char const *nm = what == BY_COPY ? "copy" : "move";
        auto intact = [&] { c.check(src->o.sound() && src->o.h == seed, "%s constructor of %s from a %s changed the source", nm, k.name, source_name(s)); };
        if (n != 1) { c.check(o == INVOKEERR && r.empty() && Obj::made == made, "%s constructor of %s with %d arguments %s", nm, k.name, n, outcome_name(o)); intact(); c.label("refused"); c.nontrivial(); }
        else if (wrong) { c.check(o == CASTERR && r.empty() && Obj::made == made, "%s constructor of %s from an unrelated class %s", nm, k.name, outcome_name(o)); intact(); c.label("refused"); c.nontrivial(); }
        else if (what == BY_MOVE && s == S_CRVAR) c.excluded("const variant rvalue");
        else if (what == BY_MOVE && !rv) {
            c.check(o == CASTERR && r.empty() && Obj::made == made, "move constructor of %s from a %s %s", k.name, source_name(s), outcome_name(o)); intact(); c.label("refused"); c.nontrivial();
        } else if (throws && o == THREW) { c.check(r.empty(), "a failed %s constructor of %s left a value", nm, k.name); if (what == BY_COPY || !k.realMove) intact(); c.label("threw"); c.nontrivial(); }
        else {
            c.check(!throws, "the exception of the %s constructor of %s was lost", nm, k.name);
            auto *p = const_cast<variant const &>(r).data<K>();
            c.check(o == RETURNED && p && r.typeId() == rtti::metaTypeId<K>() && p != src, "%s constructor of %s from a %s %s", nm, k.name, source_name(s), outcome_name(o));
            c.check(p->o.sound() && p->o.h == seed, "%s constructor of %s from a %s made an object that differs from its source", nm, k.name, source_name(s));
            if (what == BY_COPY || !k.realMove) intact();
            else c.check(src->o.gone, "move constructor of %s copied", k.name);
            c.label(what == BY_COPY ? "copied" : k.realMove ? "moved" : "moved by copying"); c.nontrivial();
            c.check(Obj::live - liveIn == (what == BY_COPY || !k.realMove), "%s constructor of %s: %ld more objects", nm, k.name, Obj::live - liveIn);
        }
        r.clear(); v.clear();
    }
    c.check(Obj::live == live, "%ld objects of %s are left", Obj::live - live, k.name);
}
template<class K> int add_class(int index, char const *name, bool dflt, bool copy, bool move, bool realMove, std::vector<Ctor> cs)
{
    // the generator's idea of the class has to be the compiler's
    if (dflt != std::is_default_constructible_v<K> || copy != std::is_copy_constructible_v<K> || move != std::is_move_constructible_v<K>) { std::fprintf(stderr, "generator is wrong about %s\n", name); std::abort(); }
    classes().push_back(Class{name, &rtti::metaTypeId<K>, dflt, copy, move, realMove, index, std::move(cs), open_class<K>, redeclare_special<K>, run_special<K>}); return 0;
}
} // namespace ctors
