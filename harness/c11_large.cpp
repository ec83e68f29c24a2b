// C11: objects of deep and wide hierarchies used as their bases.
#include <common/hier_large.hpp>
using namespace large; using rtti::variant;
namespace {
struct Use {
    variant (*make)(void *, int);                                    // 0 copy, 1 std::ref, 2 std::cref, 3 pointer, 4 pointer to const
    void const *(*stored)(variant const &);
    bool (*is)(variant const &, bool ptr); void const *(*cref)(variant const &); void const *(*data)(variant &); void const *(*ref)(variant &); void const *(*to)(variant const &, bool cst, bool &ok);
};
template<int I> Use use()
{
    using T = Nth<I>; Use u;
    u.make = [](void *p, int how) -> variant { auto &x = *static_cast<T *>(p); switch (how) { case 0: return variant{x}; case 1: return variant{std::ref(x)}; case 2: return variant{std::cref(x)}; case 3: return variant{&x}; default: return variant{const_cast<T const *>(&x)}; } };
    u.stored = [](variant const &v) -> void const * { return v.data<T>(); };
    u.is = [](variant const &v, bool ptr) { return ptr ? v.is<T const *>() : v.is<T const &>(); };
    u.cref = [](variant const &v) -> void const * { try { return &v.cref<T>(); } catch (rtti::bad_variant_cast const &) { return nullptr; } };
    u.data = [](variant &v) -> void const * { return v.data<T>(); };
    u.ref = [](variant &v) -> void const * { try { return &v.ref<T>(); } catch (rtti::bad_variant_cast const &) { return nullptr; } };
    u.to = [](variant const &v, bool cst, bool &ok) -> void const * { ok = true; try { if (cst) return v.to<T const *>(); return v.to<T *>(); } catch (rtti::bad_variant_convert const &) { ok = false; return nullptr; } };
    return u;
}
template<int... I> std::vector<Use> all_uses(std::integer_sequence<int, I...>) { return {use<I>()...}; }
LAW(large_hierarchies, pbt::ISOLATED, 300, 8000, "fresh process: objects of a chain of 24 classes (with a further base at every level) and of a class with 24 bases, held by value, reference, pointer or pointer to const as themselves or as any base, used as any class; some classes and relations left out; non-trivial: more than 20 uses as another class succeed")
{
    static auto const uses = all_uses(std::make_integer_sequence<int, TOTAL>{}); auto const &o = ops();
    Model m(c); m.build((int)c.draw(2)); int good = 0;
    do {
        int d = c.chance(1, 3) ? WIDE : (int)c.draw(TOTAL), s = d; if (!c.chance(1, 3)) s = d == WIDE ? DEPTH + (int)c.draw(WIDTH) : d < DEPTH ? (int)c.draw((uint64_t)d + 1) : d;
        int how = (int)c.draw(5); if (!how) s = d;
        void *obj = o[(size_t)d].make(); struct Del { Op const &k; void *p; ~Del() { k.kill(p); } } del{o[(size_t)d], obj};
        variant v = uses[(size_t)s].make(const_cast<void *>(o[(size_t)d].up[s](obj)), how); void const *base = how ? obj : uses[(size_t)d].stored(v);
        auto *dyn = m.reg[(size_t)d] ? m.cls(d) : nullptr; c.check(v.metaClass() == dyn, "the class of a %s held as %s (form %d)", o[(size_t)d].name.c_str(), o[(size_t)s].name.c_str(), how);
        for (int k = 0; k < 6; ++k) {
            int t = c.chance(1, 4) ? (int)c.draw(TOTAL) : d == WIDE ? DEPTH + (int)c.draw(WIDTH + 1) : (int)c.draw((uint64_t)d + 1);
            bool ok = s == t || (m.reg[(size_t)d] && m.reg[(size_t)t] && m.reach(d, t)); void const *want = ok ? o[(size_t)d].up[t](base) : nullptr; auto const &u = uses[(size_t)t];
            auto say = [&](char const *what) { return std::string(what) + " of a " + o[(size_t)d].name + " held as " + o[(size_t)s].name + ", form " + std::to_string(how) + ", as " + o[(size_t)t].name; };
            if (how < 3) {
                c.check(u.is(v, false) == ok && !u.is(v, true), "%s", say("is").c_str()); c.check(u.cref(v) == want, "%s", say("cref").c_str());
                void const *mut = how == 2 ? nullptr : want; c.check(u.data(v) == mut, "%s", say("data").c_str()); c.check(u.ref(v) == mut, "%s", say("ref").c_str());
            } else {
                c.check(u.is(v, true) == ok && !u.is(v, false), "%s", say("is").c_str()); bool k1, k2; auto *p = u.to(v, true, k1), *q = u.to(v, false, k2);
                c.check(k1 == ok && p == want, "%s", say("to pointer to const").c_str()); c.check(k2 == (ok && how == 3) && q == (how == 3 ? want : nullptr), "%s", say("to pointer").c_str());
            }
            good += ok && s != t;
        }
    } while (c.more(40));
    c.note("%d uses succeed", good); if (good > 20) c.nontrivial();
}
} // namespace
