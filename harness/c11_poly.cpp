// C11: a variant of an object, a reference or a pointer can be used as any registered base of the object's dynamic class.
#include <c11_hier.hpp>
using namespace hier;
namespace {
char const *hows[] = {"succeeds", "bad_variant_cast", "bad_variant_convert", "runtime_error"};
struct Run: Registrar {
    Variants const &vs; bool nontrivial = false;
    Run(pbt::Ctx &x, size_t i): Registrar(x, all()[i]), vs(variants()[i]) {}
    struct Obj { Class const &k; void *p; Obj(Class const &kk, int tag): k(kk), p(kk.create(tag)) {} ~Obj() { k.destroy(p); } };
    // what a T sub-object of a D object seen as an S is: null if not available
    struct What { bool ok, judged; void const *p; };
    What as(size_t d, size_t s, size_t t, void const *obj)
    {
        if (s == t) return {true, true, h.up[d][s](obj)};
        size_t dyn = h.cls[d].info ? d : s;                            // without class info the static class counts
        if (m.ambiguous(dyn, t)) return {false, false, nullptr};
        if (!(m.reg[dyn] && m.reg[t] && m.reach(dyn, t))) return {false, true, nullptr};
        return {true, true, h.up[d][t] ? h.up[d][t](obj) : h.up[s][t](h.up[d][s](obj))};
    }
    void tags(size_t d, void *obj, int salt) { for (size_t t = 0; t < n; ++t) if (h.up[d][t]) vs.as[t].settag(const_cast<void *>(h.up[d][t](obj)), salt * 100 + (int)t); }
    int tag(size_t t, void const *p) { int x; vs.as[t].gettag(p, x); return x; }
    std::string ctx;
    void yes_no(char const *what, size_t t, bool got, bool want) { c.check(got == want, "%s: %s<%s> is %d", ctx.c_str(), what, h.cls[t].name.c_str(), got); }
    void address(char const *what, size_t t, Result r, bool want, void const *p)
    {
        c.check((r.how == 0) == want, "%s: %s<%s> %s", ctx.c_str(), what, h.cls[t].name.c_str(), hows[r.how]);
        if (want) c.check(r.p == p, "%s: %s<%s> is off by %ld", ctx.c_str(), what, h.cls[t].name.c_str(), (long)((char const *)r.p - (char const *)p));
        else c.check(r.how == 1, "%s: %s<%s> is refused with %s", ctx.c_str(), what, h.cls[t].name.c_str(), hows[r.how]);
    }
    void ask_class(variant &v, size_t t, What w, bool cst)               // the content is a class object
    {
        auto const &a = vs.as[t]; variant const &cv = v;
        bool mut = w.ok && !cst;
        yes_no("is", t, a.is[0](v), w.ok); yes_no("is const", t, a.is[1](v), w.ok); yes_no("is &", t, a.is[2](v), mut); yes_no("is const &", t, a.is[3](v), w.ok); yes_no("is &&", t, a.is[4](v), false);
        yes_no("const is", t, a.isc[0](cv), w.ok); yes_no("const is const", t, a.isc[1](cv), w.ok); yes_no("const is &", t, a.isc[2](cv), false); yes_no("const is const &", t, a.isc[3](cv), w.ok); yes_no("const is &&", t, a.isc[4](cv), false);
        address("ref", t, a.ref(v), mut, w.p); address("cref", t, a.cref(v), w.ok, w.p); address("const ref", t, a.refc(cv), w.ok, w.p); address("rvalue ref", t, a.refm(v), w.ok, w.p); address("rref", t, a.rref(v), mut, w.p);
        auto const *d = a.data(v); c.check(d == (mut ? w.p : nullptr), "%s: data<%s>", ctx.c_str(), h.cls[t].name.c_str());
        d = a.datac(cv); c.check(d == (w.ok ? w.p : nullptr), "%s: const data<%s>", ctx.c_str(), h.cls[t].name.c_str());
        for (int i = 0; i < 2; ++i) {
            yes_no("is pointer to", t, a.pis[i](v), false); yes_no("const is pointer to", t, a.pisc[i](cv), false);
            auto r = a.pto[i](v); c.check(r.how == 2, "%s: to pointer to %s %s", ctx.c_str(), h.cls[t].name.c_str(), hows[r.how]);
            r = a.pcref[i](v); c.check(r.how == 1, "%s: cref of pointer to %s %s", ctx.c_str(), h.cls[t].name.c_str(), hows[r.how]);
        }
        if (!a.sliceable) return;
        yes_no("canConvert", t, a.can(v), w.ok); yes_no("const canConvert", t, a.canc(cv), w.ok);
        for (int i = 0; i < 2; ++i) {
            int got = -1; auto r = i ? a.toc(cv, got) : a.to(v, got);
            c.check(r.how == (w.ok ? 0 : 2), "%s: to<%s> %s", ctx.c_str(), h.cls[t].name.c_str(), hows[r.how]);
            if (w.ok) c.check(got == tag(t, w.p), "%s: to<%s> is a copy of something else", ctx.c_str(), h.cls[t].name.c_str());
        }
    }
    // the content is a pointer (or a reference to one): pc: to const; vc: the variable itself is const; var: reference to a variable
    void ask_pointer(variant &v, size_t s, size_t t, What w, bool pc, bool vc, bool var)
    {
        auto const &a = vs.as[t]; variant const &cv = v; auto const *name = h.cls[t].name.c_str();
        for (int i = 0; i < 2; ++i) {
            bool ok = w.ok && (i || !pc); char const *k = i ? "const " : "";
            c.check(a.pis[i](v) == ok, "%s: is<%s %s*> is %d", ctx.c_str(), name, k, !ok);
            c.check(a.pisc[i](cv) == ok, "%s: const is<%s %s*> is %d", ctx.c_str(), name, k, !ok);
            if (ok || s == t) c.check(a.pcan[i](v) == ok, "%s: canConvert<%s %s*> is %d", ctx.c_str(), name, k, !ok);
            for (auto r : {a.pto[i](v), a.ptoc[i](cv)}) {
                c.check(r.how == (ok ? 0 : 2), "%s: to<%s %s*> %s", ctx.c_str(), name, k, hows[r.how]);
                if (ok) c.check(r.p == w.p, "%s: to<%s %s*> is off by %ld", ctx.c_str(), name, k, (long)((char const *)r.p - (char const *)w.p));
            }
            // a reference to a pointer to a sub-object exists only where the address is the same
            for (auto r : {a.pcref[i](v), a.pcrefc[i](cv)}) {
                bool direct = s == t || !var;
                if (ok && s != t && !(direct && w.p == here)) c.check(r.how == 1 || (r.how == 0 && r.p == w.p), "%s: cref<%s %s*> %s", ctx.c_str(), name, k, hows[r.how]);
                else address("cref of pointer", t, r, ok, w.p);
            }
            if (s == t) address("ref of pointer", t, a.pref[i](v), ok && !vc && (bool)i == pc, w.p);      // T*& needs the very type
            else { auto r = a.pref[i](v); c.check(r.how == 1 || (r.how == 0 && ok && !vc && r.p == w.p), "%s: ref<%s %s*> %s", ctx.c_str(), name, k, hows[r.how]); }
        }
        bool off = true; off &= !a.is[0](v) && !a.is[1](v) && !a.is[2](v) && !a.is[3](v) && !a.isc[0](cv) && !a.isc[3](cv) && !a.data(v) && !a.datac(cv) && a.cref(v).how == 1;
        c.check(off, "%s: a pointer is used as the object (%s)", ctx.c_str(), name);
    }
    void const *here = nullptr;          // what the pointer holds
    void object(size_t d, size_t s, int form)
    {
        auto const &D = h.cls[d]; if (D.abstract || !h.up[d][s]) return;
        if (form <= LVALUE && d != s) form = REF + (int)c.draw(FORMS - REF);
        Obj o(D, 1); tags(d, o.p, 1 + (int)c.draw(5));
        void *slot = nullptr; void *sp = const_cast<void *>(h.up[d][s](o.p));
        static char const *fn[] = {"moved-in value", "value", "ref", "cref", "pointer", "pointer to const", "ref to pointer", "cref to pointer", "ref to pointer to const"};
        variant v = vs.make[s].make(sp, &slot, form);
        for (int hops = (int)c.draw(3); hops > 0; --hops) { if (c.chance(1, 2)) { variant w{v}; v = w; } else { variant w{std::move(v)}; v = std::move(w); } }
        ctx = "variant (" + std::string(fn[form]) + ") of a " + D.name + " seen as " + h.cls[s].name;
        c.note("%s", ctx.c_str());
        void const *obj = o.p;
        if (form <= LVALUE) {
            obj = vs.make[s].addr(v, true); c.check(obj && obj != o.p, "%s holds no copy", ctx.c_str());
            if (D.info || D.copyable) for (size_t t = 0; t < n; ++t) if (h.up[d][t] && D.info) c.check(tag(t, h.up[d][t](obj)) == tag(t, h.up[d][t](o.p)), "%s: the copy differs", ctx.c_str());
        }
        here = form >= PTR ? sp : nullptr;
        size_t dyn = D.info ? d : s;
        auto meta = [&] { c.check(v.metaClass() == (m.reg[dyn] ? h.cls[dyn].find() : nullptr), "%s: metaClass is not %s's", ctx.c_str(), h.cls[dyn].name.c_str()); };
        if (c.chance(1, 2)) meta();
        size_t t0 = c.draw(n), cnt = 1 + c.draw(n);
        for (size_t k = 0; k < cnt; ++k) {
            size_t t = (t0 + k) % n; auto w = as(d, s, t, obj);
            if (!w.judged) { c.excluded("ambiguous base"); continue; }
            c.note("asked for %s", h.cls[t].name.c_str());
            if (form <= CREF) ask_class(v, t, w, form == CREF);
            else ask_pointer(v, s, t, w, form == CPTR || form == REFCPTR, form == CREFPTR, form >= REFPTR);
            if (w.ok && s != t) { nontrivial = true; c.label(w.p == obj ? "as a base at the same address" : "as a base at another address"); }
            if (!w.ok) c.label("refused");
        }
        meta();
        if (form >= REFPTR) c.check(slot == sp, "%s: the pointer variable changed", ctx.c_str());
    }
    void null(size_t s)
    {
        int form = PTR + (int)c.draw(FORMS - PTR); void *slot = nullptr; variant v = vs.make[s].make(nullptr, &slot, form);
        variant const &cv = v; ctx = "variant (form " + std::to_string(form) + ") of a null " + h.cls[s].name + " pointer"; c.note("%s", ctx.c_str());
        bool pc = form == CPTR || form == REFCPTR;
        c.check(!v.metaClass(), "%s has a class", ctx.c_str());
        for (size_t t = 0; t < n; ++t) {
            auto const &a = vs.as[t];
            for (int i = 0; i < 2; ++i) {
                bool ok = s == t && (i || !pc);
                for (auto r : {a.pto[i](v), a.ptoc[i](cv)}) c.check(ok ? r.how == 0 && !r.p : r.how == 2 || (r.how == 0 && !r.p && (i || !pc)), "%s: to %s* %s", ctx.c_str(), h.cls[t].name.c_str(), hows[r.how]);
                if (s == t) c.check(a.pis[i](v) == ok && a.pisc[i](cv) == ok, "%s: is", ctx.c_str());
                else if (!h.up[s][t]) c.check(!a.pis[i](v) && !a.pisc[i](cv), "%s is a pointer to the unrelated %s", ctx.c_str(), h.cls[t].name.c_str());
                auto r = a.pcref[i](v); c.check(r.how == 1 || (r.how == 0 && !r.p), "%s: cref", ctx.c_str());
            }
            c.check(!a.is[0](v) && !a.data(v) && a.cref(v).how == 1, "%s is used as an object", ctx.c_str());
        }
        bool refused = false;
        try { (void)v.invoke("nothing"); } catch (rtti::runtime_error const &) { refused = true; }
        c.check(refused, "%s: a method was invoked", ctx.c_str());
        c.label("null pointer");
    }
};
void run(pbt::Ctx &c, bool unregistered)
{
    Run r(c, c.draw(all().size())); size_t n = r.n;
    auto ask = [&] {
        if (c.chance(1, 10)) { r.null(c.draw(n)); return; }
        size_t d = c.draw(n), s = d; for (int i = 0; i < 3 && (s == d || !r.h.up[d][s]); ++i) s = c.draw(n);
        if (c.chance(1, 4) || !r.h.up[d][s]) s = d;
        r.object(d, s, (int)c.draw(FORMS));
    };
    if (c.chance(1, 4)) ask();
    r.open_all(unregistered ? 4 : 0);
    r.declare_all([&] { while (c.chance(1, 4)) ask(); });
    do ask(); while (c.more(12));
    if (r.nontrivial) c.nontrivial();
}
LAW(as_base, pbt::ISOLATED, 4000, 200000, "fresh process: a generated hierarchy registered in random ways; objects of its classes held by value, reference, pointer, pointer to const or reference to a pointer, seen as the class itself or any base, copied and moved around, used as random classes through 40 accessors; non-trivial: some use as another class succeeded")
{ run(c, false); }
LAW(partly_registered, pbt::ISOLATED, 2000, 80000, "as as_base, but every class stays unregistered with probability 1/4")
{ run(c, true); }
} // namespace
