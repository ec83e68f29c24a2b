// C13: arguments reach the callee with the right value, identity and value category.
#include <common/calls.hpp>
using namespace calls;
namespace {
void one(pbt::Ctx &c, Sig const &sig, int bad)        // bad: expected number of unsuitable arguments per call, in percent
{
    size_t n = sig.params.size(); ArgVec a; Judge j{c, sig, a, {}, ""};
    std::string s;
    for (size_t i = 0; i < n; ++i) {
        a.push_back(draw_arg(c, sig.params[i], !c.chance((unsigned)bad, 100 * n)));
        j.ex.push_back(expect(sig.params[i], *a[i])); s += (i ? ", " : "") + describe(sig.params[i], *a[i]);
    }
    j.what = "f" + std::to_string(sig.id) + "(" + s + ")"; c.note("%s", j.what.c_str());
    auto const *m = c.draw(2) ? sig.stat : sig.free; c.check(m != nullptr, "function %d is not found", sig.id);
    env = Env{}; env.boom = c.chance(1, 10); bool boom = env.boom;
    variant result;
    auto o = attempt([&] { result = spread([&](auto &&...x) { return m->invoke(std::forward<decltype(x)>(x)...); }, a); });
    auto v = j.all();
    if (v == REFUSE) { j.refused(o); c.label("refused"); if (n > 0) c.nontrivial(); }
    else if (v == OK || o == RETURNED || o == THREW) {
        j.ran(o, nullptr, boom, result);
        for (size_t i = 0; i < n; ++i) { auto &e = j.ex[i]; auto k = rel(a[i]->type, sig.params[i].type).kind; c.label(e.v == EITHER ? "not judged" : e.addr ? "bound by reference" : k == Rel::CONV ? "converted" : e.after == 2 ? "moved" : "copied"); }
        if (n > 0) c.nontrivial();
    } else { c.check(o == CASTERR || o == RUNTIMEERR, "%s %s", j.what.c_str(), outcome_name(o)); j.unchanged(); c.excluded("pointer to a base behind a reference, or a wrapper"); }
}
LAW(arguments, pbt::LEAKS, 120000, 4000000, "a function of a generated signature (0..10 parameters of 14 types taken by value, const value, const reference, reference, rvalue reference or const rvalue reference) is invoked with arguments of 17 types in 18 forms (lvalues, rvalues, const ones, variants of values and references, wrappers, empty variants); what arrives, what the result is and what the arguments are afterwards is compared with a model; non-trivial: it has parameters")
{
    setup(); long live = Trk::live;
    { auto const &s = c.pick_of(sigs()); one(c, s, c.chance(1, 3) ? 100 : 20); }
    c.check(Trk::live == live, "%ld tracked objects are left", Trk::live - live);
    env = Env{};
}
// the same without prepared arguments: the expression itself is handed to invoke
template<class A> void direct_case(pbt::Ctx &c, Holder &h, Sig const &sig)
{
    hold<A>(h); auto e = expect(sig.params[0], h);
    ArgVec a; Judge j{c, sig, a, {e}, "f" + std::to_string(sig.id) + "(" + describe(sig.params[0], h) + ")"}; c.note("%s, directly", j.what.c_str());
    a.emplace_back(&h); struct Rel1 { ArgVec &a; ~Rel1() { if (!a.empty()) (void)a[0].release(); } } rel1{a};
    env = Env{}; variant result; A &x = *static_cast<A *>(h.own);
    bool o0 = false; auto o = attempt([&] { with_expr<A>(h, x, [&](auto &&ex) { using X = decltype(ex); if constexpr (std::is_constructible_v<std::decay_t<X>, X>) result = sig.free->invoke(std::forward<X>(ex)); else o0 = true; }); });
    if (o0) { c.excluded("lvalue of a move-only type as the first argument"); return; }
    if (e.v == REFUSE) j.refused(o);
    else if (e.v == OK) j.ran(o, nullptr, false, result);
    c.label(e.v == REFUSE ? "refused" : e.v == OK ? "ran" : "not judged"); c.nontrivial();
}
template<class... A> void direct_pick(pbt::Ctx &c, Holder &h, Sig const &sig, L<A...>)
{ int i = 0; ((i++ == h.type ? direct_case<A>(c, h, sig) : (void)0), ...); }
LAW(direct, pbt::LEAKS, 60000, 1500000, "a function with one parameter is invoked with an argument expression of any of the types and forms; non-trivial: every case")
{
    setup(); static std::vector<Sig const *> ones; if (ones.empty()) for (auto &s : sigs()) if (s.params.size() == 1) ones.push_back(&s);
    auto const &sig = *c.pick_of(ones); Holder h; std::vector<int> rels;
    for (size_t t = 0; t < kinds().size(); ++t) if (rel((int)t, sig.params[0].type).kind != Rel::NONE) rels.push_back((int)t);
    h.type = c.chance(1, 6) ? (int)c.draw(kinds().size()) : c.pick_of(rels); h.form = (int)c.draw(FORMS); h.seed = (int)c.draw(12);
    direct_pick(c, h, sig, Args{});
    env = Env{};
}
} // namespace
