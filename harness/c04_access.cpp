// C04: typed access succeeds exactly when C++ would allow it, and all accessors agree.
#include <common/access.hpp>
using namespace access; using namespace shape;

namespace {
char const *rn(Res r) { return r == OK ? "succeeds" : r == CAST ? "bad_variant_cast" : r == CONVERT ? "bad_variant_convert" : "runtime_error"; }
Shape with_ref(Shape s, int ref) { s.ref = ref; return s; }
Shape with_const(Shape s) { s.mask |= 1u << s.depth; return s; }

struct Case {
    pbt::Ctx &c; Src const &src; Acc const &acc; variant &v; variant const &cv; bool isConst; int val; void const *obj;
    int yes = 0, no = 0;
    // what a source of the given value category may be used as
    Verdict may(int srcRef, bool srcConst, Shape const &to) const
    {
        Shape from = with_ref(src.s, srcRef); if (isConst || srcConst) from = with_const(from);
        return same_decayed(from, to) ? allow(from, to) : NO;
    }
    void expect_bool(char const *what, bool got, Verdict want)
    {
        if (want == EITHER) return;
        ++(want == YES ? yes : no);
        c.check(got == (want == YES), "%s<%s> on a variant of %s%s: %s, C++ says %s", what, acc.name.c_str(), src.name.c_str(), isConst ? " const" : "", got ? "true" : "false", want == YES ? "yes" : "no");
    }
    void place(char const *what, void const *p)
    {
        bool ok = src.s.ext && !acc.s.ext ? p && *static_cast<void const *const *>(p) == obj : p == obj;
        c.check(ok, "%s<%s> on a variant of %s designates another object", what, acc.name.c_str(), src.name.c_str());
    }
    void expect(char const *what, Got g, Verdict want)
    {
        if (want == EITHER) return;
        ++(want == YES ? yes : no);
        if (want == YES) { c.check(g.r == OK, "%s<%s> on a variant of %s%s: %s, C++ allows it", what, acc.name.c_str(), src.name.c_str(), isConst ? " const" : "", rn(g.r)); place(what, g.p); }
        else c.check(g.r == CAST, "%s<%s> on a variant of %s%s: %s, C++ forbids it", what, acc.name.c_str(), src.name.c_str(), isConst ? " const" : "", rn(g.r));
    }
    void data(char const *what, void const *p, Verdict want)
    {
        if (want == EITHER) return;
        ++(want == YES ? yes : no);
        c.check((p != nullptr) == (want == YES), "%s<%s> on a variant of %s%s is %s", what, acc.name.c_str(), src.name.c_str(), isConst ? " const" : "", p ? "not null" : "null");
        if (p) place(what, p);
    }
    void to(char const *what, Res r, bool same, Verdict want)
    {
        if (acc.array || want == EITHER) return;
        if (!acc.copyable) return;
        ++(want == YES ? yes : no);
        if (want == YES) { c.check(r == OK, "%s<%s> on a variant of %s: %s, C++ allows it", what, acc.name.c_str(), src.name.c_str(), rn(r)); c.check(same, "%s<%s> on a variant of %s yields another value", what, acc.name.c_str(), src.name.c_str()); }
        else c.check(r == CONVERT, "%s<%s> on a variant of %s%s: %s, should be bad_variant_convert", what, acc.name.c_str(), src.name.c_str(), isConst ? " const" : "", rn(r));
    }
};
bool same_type_unordered(Src const &s, Acc const &a) { return same_decayed(s.s, a.s); }

LAW(access, pbt::LEAKS, 250000, 6000000, "a variant of one of 43 types, owned or by (const) reference, asked through a mutable, const and rvalue variant for one of 69 types (mostly of the same decayed type) by every accessor in a generated order; judged by the C++ rules; address, value and unchangedness checked; non-trivial: same decayed type with at least one success and one refusal, or an array, pointer or reference involved")
{
    auto const &src = c.pick_of(srcs()); int form = (int)c.draw(5); int val = (int)c.draw(40);
    std::vector<size_t> rel, all;
    for (size_t i = 0; i < accs().size(); ++i) if (same_type_unordered(src, accs()[i])) rel.push_back(i);
    c.note("variant of %s (form %d: 0 rvalue, 1 lvalue, 2 const lvalue, 3 ref, 4 cref), value #%d", src.name.c_str(), form, val);
    void *box = src.create(val);
    struct D { Src const &s; void *p; ~D() { s.destroy(p); } } d{src, box};
    variant v = src.make(box, form); variant const &cv = v;
    bool isConst = form == 4;
    void const *obj = form >= 3 ? box : src.addr(cv);
    c.check(src.addr(cv) == obj && src.same(obj, val), "the variant shows another value");
    c.check(v.typeId() == src.id(isConst), "typeId differs");
    bool nontrivial = false;
    int rounds = 1 + (int)c.draw(3);
    for (int r = 0; r < rounds; ++r) {
        auto const &acc = rel.empty() || c.chance(1, 6) ? c.pick_of(accs()) : accs()[rel[c.draw(rel.size())]];
        c.note("asked for %s", acc.name.c_str());
        Case k{c, src, acc, v, cv, isConst, val, obj};
        void const *pobj = obj;            // what a decayed copy must equal
        void const *decayed = src.s.ext ? (void const *)&pobj : obj;
        unsigned mask = (unsigned)c.draw(1u << 10); int start = (int)c.draw(10);
        for (int i = 0; i < 10; ++i) {
            int op = (start + i) % 10; if ((mask >> op) & 1) continue;
            bool same = false;
            switch (op) {
            case 0: for (int q = 0; q < 3; ++q) k.expect_bool(q == 0 ? "is" : q == 1 ? "is &" : "is &&", acc.is[q](v), k.may(1, false, with_ref(acc.s, q)));
                    k.expect_bool("canConvert", acc.can(v), k.may(1, false, acc.s)); break;
            case 1: for (int q = 0; q < 3; ++q) k.expect_bool(q == 0 ? "const is" : q == 1 ? "const is &" : "const is &&", acc.isc[q](cv), k.may(1, true, with_ref(acc.s, q)));
                    k.expect_bool("const canConvert", acc.canc(cv), k.may(1, true, acc.s)); break;
            case 2: k.expect("ref", acc.ref(v), k.may(1, false, with_ref(acc.s, 1))); break;
            case 3: k.expect("cref", acc.cref(v), k.may(1, false, with_const(with_ref(acc.s, 1)))); break;
            case 4: k.expect("const ref", acc.refc(cv), k.may(1, true, with_const(with_ref(acc.s, 1)))); k.expect("const cref", acc.crefc(cv), k.may(1, true, with_const(with_ref(acc.s, 1)))); break;
            case 5: k.expect("rvalue ref", acc.refr(v), k.may(0, false, with_const(with_ref(acc.s, 1)))); break;
            case 6: k.expect("rref", acc.rref(v), k.may(2, false, with_ref(acc.s, 2))); break;
            case 7: k.data("data", acc.data(v), k.may(1, false, with_ref(acc.s, 1))); k.data("const data", acc.datac(cv), k.may(1, true, with_const(with_ref(acc.s, 1)))); break;
            case 8: { auto x = acc.to(v, decayed, same); k.to("to", x, same, k.may(1, false, acc.s)); same = false; x = acc.toc(cv, decayed, same); k.to("const to", x, same, k.may(1, true, acc.s)); break; }
            case 9: if (src.copyable && !acc.array && acc.copyable) {
                    auto want = k.may(1, false, acc.s); variant w = v;
                    void const *before = src.addr(w);
                    bool hard = c.draw(2); bool ok = hard ? acc.convert(w) == OK : acc.tryConvert(w);
                    c.check(ok == (want == YES), "%s<%s> on a variant of %s %s", hard ? "convert" : "tryConvert", acc.name.c_str(), src.name.c_str(), ok ? "succeeded" : "failed");
                    if (ok) c.check(w.typeId() == acc.id(), "after convert<%s> the variant has another type", acc.name.c_str());
                    else c.check(w.typeId() == src.id(isConst) && src.addr(w) == before && src.same(before, val), "a failed convert<%s> changed the variant", acc.name.c_str());
                } break;
            }
            c.check(src.addr(cv) == obj && src.same(obj, val) && v.typeId() == src.id(isConst), "an access as %s changed the variant of %s", acc.name.c_str(), src.name.c_str());
        }
        if (k.yes && k.no) nontrivial = true;
        c.label(same_decayed(src.s, acc.s) ? (k.yes ? (k.no ? "same decay: mixed" : "same decay: allowed") : "same decay: refused") : "other type");
    }
    if (nontrivial) c.nontrivial();
}
LAW(empty, pbt::PLAIN, 100000, 1000000, "an empty variant (fresh, cleared or moved from) asked for any type in every way is refused every time; non-trivial: it was not always empty")
{
    variant v; auto how = c.draw(4);
    if (how) {
        auto const &src = c.pick_of(srcs()); void *b = src.create((int)c.draw(40));
        v = src.make(b, (int)c.draw(5));
        if (how == 1) v.clear(); else if (how == 2) { variant w{std::move(v)}; } else { variant w; w = std::move(v); }
        src.destroy(b);
        c.nontrivial();
    }
    auto const &acc = c.pick_of(accs());
    c.note("empty variant (%d) asked for %s", (int)how, acc.name.c_str());
    variant const &cv = v; bool same;
    for (int q = 0; q < 3; ++q) c.check(!acc.is[q](v) && !acc.isc[q](cv), "an empty variant is something");
    c.check(!acc.can(v) && !acc.canc(cv) && !acc.data(v) && !acc.datac(cv), "an empty variant yields data");
    for (auto g : {acc.ref(v), acc.cref(v), acc.refc(cv), acc.crefc(cv), acc.refr(v), acc.rref(v)}) c.check(g.r == CAST, "an empty variant gave a reference (%s)", rn(g.r));
    if (!acc.array && acc.copyable) {
        c.check(acc.to(v, nullptr, same) == CONVERT && acc.toc(cv, nullptr, same) == CONVERT, "an empty variant was converted");
        c.check(acc.convert(v) == CONVERT && !acc.tryConvert(v), "an empty variant was converted in place");
    }
    c.check(v.empty() && !v && !v.typeId().valid() && !v.metaClass(), "the variant is not empty any more");
}
} // namespace
