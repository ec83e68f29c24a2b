// C12: invoking a reflected method is equivalent to calling it directly.
#include <common/calls.hpp>
using namespace calls;
namespace {
enum Dyn { BASE, DERIVED, OTHER, UNREG };                   // the object's class
enum Inst { VAL, CVAL, RVAL, REF, CREFV, KREF, PTRF, CPTRV, KPTR, CKPTR, OBJ, RAWPTR, RAWKPTR, STDREF, INSTS };
char const *inst_name(int i) { static char const *n[] = {"variant", "const variant", "variant rvalue", "variant of ref", "const variant of ref", "variant of cref", "variant of pointer", "const variant of pointer", "variant of pointer to const", "const variant of pointer to const", "object", "pointer", "pointer to const", "std::ref"}; return n[i]; }
char const *dyn_name(int d) { static char const *n[] = {"Base", "Derived", "Other", "Unreg"}; return n[d]; }
char const *static_name(int s) { static char const *n[] = {"Base", "Derived", "Other", "Unreg"}; return n[s]; }

struct Instance {
    int dyn, stat, form; bool byCopy = false;                // byCopy: the method sees a temporary copy
    std::unique_ptr<Base> b; std::unique_ptr<Derived> d; Other o{3}; Unreg u{4}; variant v;
    void const *obj = nullptr;                                // the complete object the methods should run on
    template<class S> void build(S &s)
    {
        switch (form) {
        case VAL: case CVAL: case RVAL: v = variant{s}; obj = const_cast<variant const &>(v).data<S>(); break;
        case REF: case CREFV: v = variant{std::ref(s)}; break;
        case KREF: v = variant{std::cref(s)}; break;
        case PTRF: case CPTRV: v = variant{&s}; break;
        case KPTR: case CKPTR: v = variant{const_cast<S const *>(&s)}; break;
        case OBJ: byCopy = true; break;
        default: break;
        }
    }
    Base *base() { return dyn == BASE ? const_cast<Base *>(static_cast<Base const *>(obj)) : dyn == DERIVED ? static_cast<Base *>(derived()) : nullptr; }
    Derived *derived() { return dyn == DERIVED ? const_cast<Derived *>(static_cast<Derived const *>(obj)) : nullptr; }
    void make(int dy, int st, int f, int seed)
    {
        dyn = dy; stat = st; form = f; byCopy = false; v.clear(); b.reset(); d.reset();
        switch (dyn) {
        case BASE: b.reset(new Base(seed)); obj = b.get(); build(*b); break;
        case DERIVED: d.reset(new Derived(seed)); obj = d.get(); if (stat == DERIVED) build(*d); else build(static_cast<Base &>(*d)); break;
        case OTHER: obj = &o; build(o); break;
        default: obj = &u; build(u); break;
        }
    }
    template<class S, class F> variant raw(S &s, F &&f)
    {
        switch (form) {
        case OBJ: return f(s);
        case RAWPTR: return f(&s);
        case RAWKPTR: return f(const_cast<S const *>(&s));
        default: return f(std::ref(s));
        }
    }
    template<class F> variant with(F &&f)                     // calls f with the instance expression
    {
        switch (form) {
        case VAL: case REF: case KREF: case PTRF: case KPTR: return f(v);
        case CVAL: case CREFV: case CPTRV: case CKPTR: return f(const_cast<variant const &>(v));
        case RVAL: return f(std::move(v));
        default:
            switch (dyn) {
            case BASE: return raw(*b, f);
            case DERIVED: if (stat == DERIVED) return raw(*d, f); return raw(static_cast<Base &>(*d), f);
            case OTHER: return raw(o, f);
            default: return raw(u, f);
            }
        }
    }
    bool allows_mutation() const { return form == VAL || form == REF || form == PTRF || form == CPTRV || form == RAWPTR; }
    long state() { return dyn == BASE ? V<Base>::fp(*base()) : dyn == DERIVED ? V<Derived>::fp(*derived()) : dyn == OTHER ? static_cast<Other const *>(obj)->o : static_cast<Unreg const *>(obj)->u; }
};
Instance &draw_instance(pbt::Ctx &c, Instance &i, bool named)
{
    int dyn = (int)c.weighted({3, 6, 1, 1}), stat = dyn == DERIVED && c.chance(1, 3) ? BASE : dyn;
    int form = (int)c.draw(named ? OBJ : INSTS);
    if (named && form == RVAL) form = VAL;
    if (dyn == DERIVED && stat == BASE && (form <= RVAL || form == OBJ)) stat = DERIVED;       // would be sliced
    i.make(dyn, stat, form, (int)c.draw(9));
    return i;
}
std::string describe(Instance const &i) { return std::string(inst_name(i.form)) + " of a " + dyn_name(i.dyn) + (i.dyn != i.stat ? std::string(" seen as ") + static_name(i.stat) : ""); }

struct Target { rtti::MetaMethod const *m; char const *name; bool derived, cst; };
Target target(Sig const &s, int k)
{ switch (k) { case 0: return {s.m, "m", false, false}; case 1: return {s.mc, "mc", false, true}; case 2: return {s.n, "n", true, false}; default: return {s.nc, "nc", true, true}; } }

void draw_args(pbt::Ctx &c, Sig const &sig, ArgVec &a, Judge &j, std::string &s, size_t first, bool good)
{
    for (size_t i = first; i < sig.params.size(); ++i) {
        a.push_back(draw_arg(c, sig.params[i], good || !c.chance(1, 3)));
        j.ex.push_back(expect(sig.params[i], *a.back())); s += (i ? ", " : "") + calls::describe(sig.params[i], *a.back());
    }
}
// how many arguments to pass: the right number, or a few less or more
size_t resize(pbt::Ctx &c, ArgVec &a, size_t max)
{
    size_t n = a.size(), to = n; while (to == n) to = c.draw(max + 1);
    while (a.size() > to) a.pop_back();
    while (a.size() < to) a.push_back(draw_arg(c, Param{(int)c.draw(14), (PKind)c.draw(4)}, true));
    return to;
}
void run(pbt::Ctx &c, int refusals)
{
    setup(); long live = Trk::live;
    {
    auto const &sig = c.pick_of(sigs()); auto t = target(sig, (int)c.draw(4));
    c.check(t.m != nullptr, "method %s%d is not registered", t.name, sig.id);
    bool named = c.chance(1, 2);
    Instance inst; for (int tries = 0; tries < 5; ++tries) { Instance &i = draw_instance(c, inst, named); bool ok = i.dyn <= DERIVED && (!t.derived || i.dyn == DERIVED) && (t.cst || i.allows_mutation()); if (ok || c.chance((unsigned)refusals, 10)) break; }
    ArgVec a; Judge j{c, sig, a, {}, ""}; std::string s;
    draw_args(c, sig, a, j, s, 0, !c.chance((unsigned)refusals, 12));
    size_t n = sig.params.size(); bool wrong = c.chance((unsigned)refusals, 15); if (wrong) resize(c, a, 10);
    std::string name = t.name + std::to_string(sig.id), full; 
    if (named && c.chance(1, 3)) full = t.m->name();
    bool unknown = named && c.chance(1, 20); if (unknown) { name += c.chance(1, 2) ? "x" : " "; full.clear(); }
    j.what = std::string(named ? "variant.invoke " : "invoke ") + name + " of " + (t.derived ? "Derived" : "Base") + " on a " + describe(inst) + "(" + s + ")" + (wrong ? " with " + std::to_string(a.size()) + " arguments" : ""); c.note("%s", j.what.c_str());
    env = Env{}; env.boom = c.chance(1, 10); bool boom = env.boom; variant result; long before = inst.state(); auto *self0 = inst.obj;
    auto o = attempt([&] {
        if (named) {
            auto const &nm = full.empty() ? name : full;
            result = inst.with([&](auto &&i) -> variant {
                if constexpr (std::is_same_v<std::decay_t<decltype(i)>, variant>) return spread([&](auto &&...x) { return i.invoke(nm, std::forward<decltype(x)>(x)...); }, a);
                else return variant{}; });
        } else result = inst.with([&](auto &&i) -> variant { return spread([&](auto &&...x) { return t.m->invoke(std::forward<decltype(i)>(i), std::forward<decltype(x)>(x)...); }, a); });
    });
    auto same = [&] { c.check(inst.obj == self0 && inst.state() == before, "%s: the object changed", j.what.c_str()); };
    bool sees = !t.derived || inst.dyn == DERIVED, right = inst.dyn <= DERIVED && sees;
    if (unknown) { c.check(o == RUNTIMEERR && env.calls.empty(), "%s %s although the name is unknown", j.what.c_str(), outcome_name(o)); same(); j.ex.clear(); j.unchanged(); c.label("unknown name"); c.nontrivial(); }
    else if (!right) {
        // a wrong class
        c.check((named ? o == RUNTIMEERR : o == CASTERR || (wrong && o == INVOKEERR)) && env.calls.empty(), "%s %s", j.what.c_str(), outcome_name(o)); same(); j.unchanged(); c.label("wrong class"); c.nontrivial();
    } else if (wrong) {
        c.check((o == INVOKEERR || (o == CASTERR && !t.cst && !inst.allows_mutation())) && env.calls.empty(), "%s %s", j.what.c_str(), outcome_name(o)); same(); j.unchanged(); c.label("wrong number of arguments"); c.nontrivial();
    } else if (!t.cst && !inst.allows_mutation()) {
        c.check(o == CASTERR && env.calls.empty(), "%s %s", j.what.c_str(), outcome_name(o)); same(); j.unchanged(); c.label("non-const method on a const object"); c.nontrivial();
    } else if (j.all() == REFUSE) { j.refused(o); same(); c.label("unsuitable argument"); c.nontrivial(); }
    else if (j.all() == OK || o == RETURNED || o == THREW) {
        void const *self = inst.byCopy ? (env.calls.empty() ? nullptr : env.calls[0].self) : t.derived ? (void const *)inst.derived() : (void const *)inst.base();
        if (inst.byCopy) c.check(self != inst.base() && self, "%s: ran on the original", j.what.c_str());
        long h = j.ran(o, self, boom, result);
        if (t.cst || boom || inst.byCopy) same();
        else {
            long want;
            if (inst.dyn == BASE) { Base x{0}; x.b = (int)before + 1 + (int)(h & 63); want = V<Base>::fp(x); }
            else want = before + (t.derived ? 1 + (h & 63) : 65536l * (1 + (h & 63)));
            c.check(inst.state() == want, "%s: the object is %ld afterwards, not %ld", j.what.c_str(), inst.state(), want);
        }
        c.label(boom ? "exception" : t.derived == (inst.dyn == DERIVED) ? "own method" : "inherited method");
        if (n > 0 || inst.form != VAL) c.nontrivial();
    } else { same(); c.excluded("argument not judged"); }
    }
    c.check(Trk::live == live, "%ld tracked objects are left", Trk::live - live);
    env = Env{};
}
LAW(methods, pbt::LEAKS, 100000, 3000000, "a (const or not, own or inherited) member function of a generated signature is invoked, through the MetaMethod or by name, on an object in 14 forms with arguments of 17 types in 18 forms; one call, the right object, result, effect and exceptions; non-trivial: it has parameters, a non-trivial instance form or the call must be refused")
{ run(c, 1); }
LAW(refusals, pbt::LEAKS, 60000, 1500000, "as methods, but mostly calls which must be refused: wrong number of arguments, const objects, wrong classes, unknown names, unsuitable arguments; refused calls run and change nothing")
{ run(c, 6); }
LAW(statics, pbt::LEAKS, 60000, 1500000, "free and static functions with the right and wrong numbers of arguments (0..11), also by name through a variant, which is then the first argument; non-trivial: it has parameters, or the number is wrong")
{
    setup(); long live = Trk::live;
    {
    auto const &sig = c.pick_of(sigs()); ArgVec a; Judge j{c, sig, a, {}, ""}; std::string s; size_t n = sig.params.size();
    bool byName = n > 0 && (sig.params[0].type == 7 || sig.params[0].type == 8) && c.chance(2, 3);       // Base or Derived first
    if (byName) {
        std::unique_ptr<Holder> h{new Holder}; h->type = c.chance(1, 2) ? 8 : 9; static int const forms[] = {VLV, VCLV, RLV, RCLV, KLV, KCLV}; h->form = c.pick(forms); h->seed = (int)c.draw(9);
        kinds()[(size_t)h->type].hold(*h); kinds()[(size_t)h->type].wrap(*h);
        j.ex.push_back(expect(sig.params[0], *h)); s = calls::describe(sig.params[0], *h); a.push_back(std::move(h));
    }
    draw_args(c, sig, a, j, s, byName, !c.chance(1, 8));
    bool wrong = !byName && c.chance(1, 3); if (wrong) resize(c, a, 10);
    bool st = byName || c.draw(2); auto const *m = st ? sig.stat : sig.free; c.check(m != nullptr, "function %d is not found", sig.id);
    j.what = (byName ? "variant.invoke s" : st ? "s" : "f") + std::to_string(sig.id) + "(" + s + ")" + (wrong ? " with " + std::to_string(a.size()) + " arguments" : ""); c.note("%s", j.what.c_str());
    env = Env{}; env.boom = c.chance(1, 10); bool boom = env.boom; variant result;
    auto o = attempt([&] {
        if (byName) { auto name = "s" + std::to_string(sig.id); auto &v = a[0]->v; auto const &cv = v; bool k = a[0]->form == VCLV || a[0]->form == RCLV || a[0]->form == KCLV;
            result = spread([&](auto &&...x) -> variant { if constexpr (sizeof...(x) > 9) return variant{}; else return k ? cv.invoke(name, std::forward<decltype(x)>(x)...) : v.invoke(name, std::forward<decltype(x)>(x)...); }, a, 1); }
        else result = spread([&](auto &&...x) { return m->invoke(std::forward<decltype(x)>(x)...); }, a);
    });
    if (wrong) { c.check(o == INVOKEERR && env.calls.empty(), "%s %s", j.what.c_str(), outcome_name(o)); j.unchanged(); c.label("wrong number of arguments"); c.nontrivial(); }
    else if (j.all() == REFUSE) { j.refused(o); c.label("unsuitable argument"); }
    else if (j.all() == OK || o == RETURNED || o == THREW) { j.ran(o, nullptr, boom, result); c.label(byName ? "by name" : "ran"); if (n) c.nontrivial(); }
    else c.excluded("argument not judged");
    if (!wrong && n == 0 && c.chance(1, 2)) {          // one argument too many for any static function
        int x[11] = {}; env = Env{};
        auto e = attempt([&] { (void)m->invoke(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9], x[10]); });
        c.check(e == INVOKEERR && env.calls.empty(), "a function invoked with 11 arguments %s", outcome_name(e));
    }
    }
    c.check(Trk::live == live, "%ld tracked objects are left", Trk::live - live);
    env = Env{};
}
LAW(no_instance, pbt::PLAIN, 5000, 50000, "a member function invoked with no argument at all is refused with invoke_error; non-trivial: every case")
{
    setup(); auto const &sig = c.pick_of(sigs()); auto t = target(sig, (int)c.draw(4)); env = Env{};
    auto o = attempt([&] { (void)t.m->invoke(); });
    c.check(o == INVOKEERR && env.calls.empty(), "%s%d without an instance %s", t.name, sig.id, outcome_name(o)); c.nontrivial();
}
} // namespace
