// C03: variants made from std::ref / std::cref alias the object and never own it.
#include <common/kinds.hpp>
#include <rtti/metaerror.h>
using namespace kinds; using namespace led;
using rtti::variant;

namespace {

// type-erased operations on one object of type T and on variants referring to it
struct RKind {
    char const *name;
    void *(*create)(int v);                   // a fresh object on the heap
    void (*destroy)(void *);
    void (*write)(void *, int v);             // direct write to the object
    bool (*same)(void const *, int v);        // direct read
    variant (*alias)(void *, int form);       // 0 std::ref(T), 1 std::cref(T), 2 std::ref(T const), 3 named wrapper copied, 4 named const wrapper copied
    char const *(*verify)(variant &, void *obj, bool isConst, int v);
    void (*write_through)(variant &, int v);  // by ref<T>()
    void (*take)(variant &);                  // move the object out by rref<T>() (not for arrays)
    bool (*own)(variant &);                   // replace the alias by an owned copy; false if not copyable
    bool cls;
};

template<class T> struct RK {
    using E = std::remove_extent_t<T>;
    static constexpr bool Arr = std::is_array_v<T>;
    struct Box { T obj; template<class... A> Box(A &&...a): obj{std::forward<A>(a)...} {} };
    template<size_t... I> static Box *mk_array(int v, std::index_sequence<I...>) { return new Box{Tr<E>::make(v + (int)I)...}; }
    static void *create(int v)
    {
        if constexpr (Arr) return mk_array(v, std::make_index_sequence<std::extent_v<T>>{});
        else return new Box{Tr<T>::make(v)};
    }
    static T &o(void *p) { return static_cast<Box*>(p)->obj; }
    static void destroy(void *p) { delete static_cast<Box*>(p); }
    static void set(T &x, int v)
    {
        if constexpr (Arr) { for (size_t i = 0; i < std::extent_v<T>; ++i) x[i] = Tr<E>::make(v + (int)i); }
        else x = Tr<T>::make(v);
    }
    static void write(void *p, int v) { set(o(p), v); }
    static bool same(void const *p, int v) { return Tr<T>::same(o(const_cast<void*>(p)), v); }
    static variant alias(void *p, int form)
    {
        T &x = o(p); T const &cx = x;
        switch (form) {
        case 0: return variant{std::ref(x)};
        case 1: return variant{std::cref(x)};
        case 2: return variant{std::ref(cx)};
        case 3: { auto r = std::ref(x); return variant{r}; }
        default: { auto const r = std::ref(x); return variant{r}; }
        }
    }
    template<class F> static bool refused(F &&f) { try { f(); } catch (rtti::bad_variant_cast const &) { return true; } return false; }
    static char const *verify(variant &v, void *p, bool isConst, int val)
    {
        T &x = o(p); variant const &cv = v;
        if (v.empty() || !v) return "alias reported empty";
        if (v.typeId() != (isConst ? rtti::metaTypeId<T const>() : rtti::metaTypeId<T>())) return "typeId is not the referred type";
        if (!cv.is<T>() || !v.is<T>()) return "is<T> false";
        if (!cv.is<T const &>() || !v.is<T const &>()) return "is<T const&> false";
        if (v.is<T &>() == isConst) return isConst ? "is<T&> true for a const object" : "is<T&> false for a mutable object";
        if (cv.is<T &>()) return "is<T&> true for a const variant";
        if (&v.cref<T>() != &x || &cv.cref<T>() != &x || &cv.ref<T>() != &x) return "const reference does not designate the object";
        if (cv.data<T>() != &x) return "const data does not point to the object";
        if (!isConst) {
            if (&v.ref<T>() != &x) return "ref does not designate the object";
            if (v.data<T>() != &x) return "data does not point to the object";
        } else {
            if (!refused([&] { (void)v.ref<T>(); })) return "ref<T> gave mutable access to a const object";
            if (v.data<T>()) return "data<T> gave mutable access to a const object";
            if (v.data<T const>() != &x) return "data<T const> does not point to the object";
            if (&v.ref<T const>() != &x) return "ref<T const> does not designate the object";
        }
        if (!Tr<T>::same(cv.cref<T>(), val)) return "another value is seen through the alias";
        if constexpr (!Arr) {
            if constexpr (std::is_copy_constructible_v<T>) {
                auto made = led::created();
                T copy = cv.to<T>();
                if (!Tr<T>::same(copy, val)) return "to<T> yields another value";
                if (&copy == &x) return "to<T> is not a copy";
                (void)made;
            }
        } else if constexpr (!std::is_array_v<E>) {
            if (cv.to<E const *>() != &x[0]) return "to<pointer> does not point to the array";
            if (!isConst && v.to<E *>() != &x[0]) return "to<pointer> does not point to the array";
            if (isConst && v.is<E *>()) return "mutable pointer into a const array";
        }
        return nullptr;
    }
    static void write_through(variant &v, int val) { set(v.ref<T>(), val); }
    static void take(variant &v)
    {
        if constexpr (!Arr && std::is_move_constructible_v<T>) { T t = std::move(v).rref<T>(); (void)t; }
    }
    static bool own(variant &v)
    {
        if constexpr (!Arr && std::is_copy_constructible_v<T>) { v = v.to<T>(); return true; }
        else { (void)v; return false; }
    }
    static RKind kind(char const *name) { return {name, create, destroy, write, same, alias, verify, write_through, take, own, std::is_class_v<T>}; }
};

std::vector<RKind> const &kinds_()
{
    static std::vector<RKind> const ks = {
        RK<int>::kind("int"), RK<bool>::kind("bool"), RK<double>::kind("double"), RK<Scoped>::kind("enum class"), RK<int*>::kind("int*"), RK<char const*>::kind("char const*"),
        RK<Pod12>::kind("pod12"), RK<Big>::kind("pod240"), RK<Over>::kind("alignas(32) pod"), RK<VirtV>::kind("polymorphic"), RK<Un>::kind("union"),
        RK<std::string>::kind("string"), RK<std::vector<int>>::kind("vector"), RK<std::unique_ptr<int>>::kind("unique_ptr"), RK<std::shared_ptr<int>>::kind("shared_ptr"),
        RK<Fn>::kind("function pointer"),
        RK<Obj<8, 4, COPY | MOVE>>::kind("obj8"), RK<Obj<24, 8, COPY | MOVE>>::kind("obj24"), RK<Obj<16, 8, MOVE>>::kind("move-only obj16"), RK<Obj<40, 8, COPY>>::kind("copy-only obj40"),
        RK<int[3]>::kind("int[3]"), RK<std::string[2]>::kind("string[2]"), RK<Obj<24, 8, COPY | MOVE>[2]>::kind("obj24[2]"), RK<char[5]>::kind("char[5]"), RK<int*[2]>::kind("int*[2]"),
    };
    return ks;
}

struct Object { int kind; void *p; int val; };
struct Cell { int obj = -1; bool isConst = false; bool owned = false; int kind = 0, val = 0; };   // obj -1 and !owned: empty

void run(pbt::Ctx &c, size_t maxKinds)
{
    led::reset();
    auto const &ks = kinds_();
    {
        std::vector<Object> objs; std::vector<variant> v; std::vector<Cell> m;
        struct Cleanup { std::vector<Object> &o; ~Cleanup() { for (auto &x : o) kinds_()[(size_t)x.kind].destroy(x.p); } } cleanup{objs};
        size_t no = 1 + c.draw(3);
        std::vector<int> allowed; for (size_t i = 0; i < maxKinds; ++i) allowed.push_back((int)c.draw(ks.size()));
        for (size_t i = 0; i < no; ++i) {
            int k = c.pick_of(allowed); int val = (int)c.draw(40);
            objs.push_back({k, ks[(size_t)k].create(val), val});
            c.note("object %zu: %s #%d", i, ks[(size_t)k].name, val);
        }
        long base = (long)led::alive();
        size_t nv = 2 + c.draw(3);
        v.resize(nv); m.resize(nv);
        int step = 0, aliases = 0, writes = 0, mods = 0;
        auto verify = [&](variant &x, Cell const &e, char const *who, size_t i) {
            if (e.owned) {
                if (x.empty()) c.fail("step %d: %s[%zu] lost its owned copy", step, who, i);
                return;      // content of owned copies is C01's business, aliasing is checked below
            }
            if (e.obj < 0) { c.check(x.empty(), "step %d: %s[%zu] should be empty", step, who, i); return; }
            auto const &o = objs[(size_t)e.obj]; auto const &k = ks[(size_t)o.kind];
            auto const *err = k.verify(x, o.p, e.isConst, o.val);
            if (err) c.fail("step %d: %s[%zu] aliasing object %d (%s #%d%s): %s", step, who, i, e.obj, k.name, o.val, e.isConst ? ", const" : "", err);
        };
        while (step < 40 && c.more(14)) {
            ++step;
            size_t i = c.draw(nv), j = c.draw(nv);
            long created = led::created();
            bool pure = true;       // no object may be created or destroyed by the step
            long aliveBefore = (long)led::alive(); (void)created;
            switch (c.weighted({10, 6, 6, 4, 3, 3, 8, 8, 2, 3, 3})) {
            case 0: case 1: {
                int o = (int)c.draw(no), form = (int)c.draw(5); bool ctor = c.draw(2);
                bool isC = form == 1 || form == 2;
                c.note("%d: v[%zu] %s alias(object %d, form %d)", step, i, ctor ? "= variant" : "=", o, form);
                if (m[i].owned) pure = false;
                if (ctor) { variant t = ks[(size_t)objs[(size_t)o].kind].alias(objs[(size_t)o].p, form); v[i] = t; }
                else v[i] = ks[(size_t)objs[(size_t)o].kind].alias(objs[(size_t)o].p, form);
                m[i] = Cell{o, isC, false}; ++aliases; break;
            }
            case 2: c.note("%d: v[%zu] = v[%zu]", step, i, j); if (m[i].owned || m[j].owned) pure = false; v[i] = v[j]; m[i] = m[j]; ++mods; break;
            case 3: c.note("%d: v[%zu] = move(v[%zu])", step, i, j); if (m[i].owned || m[j].owned) pure = false; v[i] = std::move(v[j]); if (i != j) { m[i] = m[j]; m[j] = Cell{}; } ++mods; break;
            case 4: { c.note("%d: swap(v[%zu], v[%zu])", step, i, j); if (m[i].owned || m[j].owned) pure = false; using std::swap; swap(v[i], v[j]); std::swap(m[i], m[j]); ++mods; break; }
            case 5: c.note("%d: v[%zu].clear()", step, i); if (m[i].owned) pure = false; v[i].clear(); m[i] = Cell{}; break;
            case 6: {   // write to the object itself
                size_t o = c.draw(no); int val = (int)c.draw(40);
                c.note("%d: object %zu = #%d", step, o, val);
                pure = false; ks[(size_t)objs[o].kind].write(objs[o].p, val); objs[o].val = val; ++writes; break;
            }
            case 7: if (m[i].obj >= 0 && !m[i].isConst) {
                auto &o = objs[(size_t)m[i].obj]; int val = (int)c.draw(40);
                c.note("%d: write #%d through v[%zu]", step, val, i);
                pure = false; ks[(size_t)o.kind].write_through(v[i], val); o.val = val; ++writes;
                c.check(ks[(size_t)o.kind].same(o.p, val), "step %d: writing through v[%zu] did not change the object", step, i); } break;
            case 8: if (m[i].obj >= 0 && !m[i].isConst) {   // move out of the object, then give it a new value
                auto &o = objs[(size_t)m[i].obj];
                c.note("%d: take from object through rvalue v[%zu]", step, i);
                pure = false; ks[(size_t)o.kind].take(v[i]); o.val = (int)c.draw(40); ks[(size_t)o.kind].write(o.p, o.val); } break;
            case 9: if (m[i].obj >= 0) {    // a temporary copy of the alias, destroyed again
                c.note("%d: { variant t(v[%zu]); variant u(move(t)); }", step, i);
                variant t(v[i]); verify(t, m[i], "copy of v", i); variant u(std::move(t)); verify(u, m[i], "moved copy of v", i);
                c.check(t.empty(), "step %d: moved-from alias is not empty", step);
                pure = false; } break;      // verify() makes to<T> copies
            case 10: if (m[i].obj >= 0) {
                auto const &o = objs[(size_t)m[i].obj];
                pure = false;
                if (ks[(size_t)o.kind].own(v[i])) { c.note("%d: v[%zu] = v[%zu].to<T>() (owned copy)", step, i, i); m[i] = Cell{-1, false, true, o.kind, o.val}; } } break;
            }
            long aliveAfter = (long)led::alive();
            if (pure) c.check(aliveAfter == aliveBefore && led::created() == created, "step %d: an operation on aliases created or destroyed an object", step);
            for (size_t x = 0; x < nv; ++x) verify(v[x], m[x], "v", x);
            for (auto const &o : objs) c.check(ks[(size_t)o.kind].same(o.p, o.val), "step %d: the referred object changed on its own", step);
            if (*led::error()) c.fail("step %d: %s", step, led::error());
        }
        v.clear();
        c.check((long)led::alive() == base, "aliases destroyed or kept %ld object(s)", base - (long)led::alive());
        for (auto const &o : objs) c.check(ks[(size_t)o.kind].same(o.p, o.val), "an object changed when its aliases were destroyed");
        if (aliases >= 1 && writes >= 1 && mods >= 1) c.nontrivial();
    }
    c.check(led::alive() == 0 && !*led::error(), "ledger: %s", led::error());
}

LAW(alias_history, pbt::LEAKS, 120000, 4000000, "histories of up to 40 steps over 2..4 variants and 1..3 objects of 25 types: alias creation in 5 forms, copies, moves, swaps, writes on both sides, moving out, taking owned copies; identity, constness and value checked after every step; non-trivial: at least one alias, one write and one copy/move/swap")
{ run(c, 3); }
LAW(alias_history_one_type, pbt::LEAKS, 60000, 2000000, "as alias_history with all objects of one type, so that wrong identities cannot hide behind type mismatches")
{ run(c, 1); }
} // namespace
