// C14: reflected constructors exist, are found by signature and build what direct construction builds.
#include <common/ctors.hpp>
using namespace ctors;
namespace {
void setup14()
{
    static bool done = false; if (done) return; done = true;
    setup();
    for (auto &k : classes()) { k.open(k); for (auto &x : k.ctors) x.declare(k, ""); }
}
// the special constructors of a class, in declaration order
std::vector<std::pair<std::string, int>> specials(Class const &k)
{
    std::vector<std::pair<std::string, int>> r;
    if (k.dflt) r.emplace_back("d_constructor", BY_DEFAULT);
    if (k.copy) r.emplace_back("c_constructor", BY_COPY);
    if (k.move) r.emplace_back("m_constructor", BY_MOVE);
    return r;
}
LAW(construct, pbt::LEAKS, 70000, 2000000, "a declared constructor of a generated class (1..10 parameters of 14 types in 5 kinds) is looked up by signature and invoked with arguments of 17 types in 18 forms, with right and wrong numbers, sometimes throwing: the result holds the object direct construction gives, and nothing else is made; non-trivial: every case with a constructor")
{
    setup14(); long live = Trk::live, objs = Obj::live;
    {
    auto const &k = c.pick_of(classes()); if (k.ctors.empty()) { c.label("no constructors"); return; }
    auto const &x = c.pick_of(k.ctors); auto const &sig = x.sig;
    auto const *mc = rtti::MetaClass::find(k.id()); c.check(mc && mc->name() == class_name(k), "%s is not found", k.name);
    auto const *m = mc->getConstructor("constructor" + x.full); c.check(m != nullptr, "constructor%s of %s is not found", x.full.c_str(), k.name);
    ArgVec a; Judge j{c, sig, a, {}, ""}; std::string s; bool good = !c.chance(1, 4);
    for (size_t i = 0; i < sig.params.size(); ++i) {
        a.push_back(draw_arg(c, sig.params[i], good || !c.chance(1, 3)));
        j.ex.push_back(expect(sig.params[i], *a.back())); s += (i ? ", " : "") + describe(sig.params[i], *a.back());
    }
    bool wrong = c.chance(1, 6);
    if (wrong) {
        size_t n = a.size(), to = n; while (to == n) to = c.draw(11);
        while (a.size() > to) a.pop_back();
        while (a.size() < to) a.push_back(draw_arg(c, Param{(int)c.draw(14), (PKind)c.draw(4)}, true));
    }
    j.what = std::string(k.name) + "(" + s + ")" + (wrong ? " with " + std::to_string(a.size()) + " arguments" : ""); c.note("%s", j.what.c_str());
    env = Env{}; env.boom = c.chance(1, 8); bool boom = env.boom; variant result; long made = Obj::made, before = Obj::live;
    auto o = attempt([&] { result = spread([&](auto &&...e) { return m->invoke(std::forward<decltype(e)>(e)...); }, a); });
    if (wrong || j.all() == REFUSE) {
        if (wrong) { c.check(o == INVOKEERR && env.calls.empty(), "%s %s", j.what.c_str(), outcome_name(o)); j.unchanged(); } else j.refused(o);
        c.check(Obj::made == made && result.empty(), "%s made an object although it was refused", j.what.c_str()); c.label(wrong ? "wrong number of arguments" : "unsuitable argument");
    } else if (j.all() == OK || o == RETURNED || o == THREW) {
        j.ran(o, nullptr, boom, result);
        c.check(Obj::live == before + !boom, "%s: %ld objects more", j.what.c_str(), Obj::live - before); c.label(boom ? "exception" : "constructed");
    } else c.excluded("argument not judged");
    c.nontrivial();
    }
    c.check(Trk::live == live && Obj::live == objs, "%ld tracked and %ld constructed objects are left", Trk::live - live, Obj::live - objs);
    env = Env{};
}
LAW(special, pbt::LEAKS, 60000, 1500000, "the default, copy or move constructor of a generated class exists exactly if the class has one, and is invoked with sources in 10 forms and wrong arguments, sometimes throwing; copies leave their source alone, moves take from it; non-trivial: the constructor exists")
{
    setup14(); auto const &k = c.pick_of(classes()); k.special(c, k, 1 + (int)c.draw(3));
}
LAW(registered, pbt::ISOLATED, 3000, 60000, "the constructors of some classes are declared in a random order, under random names, with repetitions and re-opening, and looked up by signature, by bare name and by index in between, against a list model; non-trivial: a class with at least two declared constructors")
{
    setup();
    struct Entry { std::string name; int ctor, special; };
    struct Model { std::vector<Entry> e; bool open = false; };
    std::vector<Model> model(classes().size()); std::vector<size_t> used; size_t n = 1 + c.draw(3);
    for (size_t i = 0; i < n; ++i) used.push_back(c.draw(classes().size()));
    static char const *const names[] = {"", "make", "make_more", "constructor", "from", "c"};
    auto find = [](Model const &m, std::string const &s) -> int {       // by signature or bare name: the first
        for (size_t i = 0; i < m.e.size(); ++i) { auto const &q = m.e[i].name; if (q == s || (q.find('(') != std::string::npos && q.substr(0, q.find('(')) == s)) return (int)i; }
        return -1; };
    auto declare = [&](Class const &k, Model &m, bool) { if (!m.open) { m.open = true; for (auto &s : specials(k)) m.e.push_back({s.first, -1, s.second}); } };
    auto verify = [&](Class const &k, Model const &m) {
        auto const *mc = rtti::MetaClass::find(k.id());
        if (!m.open) { c.check(mc == nullptr, "%s is registered", k.name); return; }
        c.check(mc && rtti::MetaNamespace::global()->getClass(class_name(k)) == mc && mc->metaTypeId() == k.id(), "%s is not found", k.name);
        c.check(mc->constructorCount() == m.e.size(), "%s has %zu constructors, not %zu", k.name, mc->constructorCount(), m.e.size());
        for (size_t i = 0; i < m.e.size(); ++i) {
            auto const *x = mc->getConstructor(i); c.check(x && x->name() == m.e[i].name && x->owner() == mc && x->category() == rtti::mcatConstructor, "constructor %zu of %s is %s, not %s", i, k.name, x ? x->name().c_str() : "missing", m.e[i].name.c_str());
            c.check(mc->getConstructor(m.e[i].name) == x, "%s of %s is not found by its signature", m.e[i].name.c_str(), k.name);
            c.check(x->qualifiedName() == mc->qualifiedName() + "::" + x->name(), "constructor %s of %s is called %s", x->name().c_str(), k.name, x->qualifiedName().c_str());
            for (auto const *t : {"x", " ", "(", ")"}) { auto near = m.e[i].name + t; c.check(!mc->getConstructor(near), "a constructor %s of %s", near.c_str(), k.name); near = t + m.e[i].name; c.check(!mc->getConstructor(near), "a constructor %s of %s", near.c_str(), k.name); }
            if (m.e[i].ctor >= 0) { auto nm = m.e[i].name.substr(0, m.e[i].name.find('(')); c.check(k.ctors[(size_t)m.e[i].ctor].typed(*mc, nm) == x && (nm != "constructor" || k.ctors[(size_t)m.e[i].ctor].typed(*mc, "") == x), "%s of %s is not found by its parameter types", m.e[i].name.c_str(), k.name); }
            auto cut = m.e[i].name.substr(0, m.e[i].name.size() - 1); c.check(!mc->getConstructor(cut) || find(m, cut) >= 0, "a constructor %s of %s", cut.c_str(), k.name);
        }
        for (size_t i : {m.e.size(), m.e.size() + 1, (size_t)-1}) c.check(!mc->getConstructor(i), "constructor %zu of %s", i, k.name);
        c.check(!mc->getConstructor(""), "a constructor without a name of %s", k.name);
        for (auto const *s : names) { std::string nm = *s ? s : "constructor"; int w = find(m, nm); auto const *x = mc->getConstructor(nm); c.check(x == (w < 0 ? nullptr : mc->getConstructor((size_t)w)), "the name %s of %s finds %s", nm.c_str(), k.name, x ? x->name().c_str() : "nothing"); }
        auto sp = [&](rtti::MetaConstructor const *x, char const *nm) { int w = find(m, nm); c.check(x == (w < 0 ? nullptr : mc->getConstructor((size_t)w)), "%s of %s is %s", nm, k.name, x ? x->name().c_str() : "missing"); };
        sp(mc->defaultConstructor(), "d_constructor"); sp(mc->copyConstructor(), "c_constructor"); sp(mc->moveConstructor(), "m_constructor");
        if (m.e.size() >= specials(k).size() + 2) c.nontrivial();
    };
    do {
        auto ci = used[c.draw(used.size())]; auto const &k = classes()[ci]; auto &m = model[ci];
        switch (c.weighted({1, 6, 1, 2})) {
        case 0: c.note("open %s", k.name); k.open(k); declare(k, m, false); break;
        case 1: {
            if (k.ctors.empty()) { k.open(k); declare(k, m, false); break; }
            int i = (int)c.draw(k.ctors.size()); std::string nm = c.pick(names); auto full = (nm.empty() ? "constructor" : nm) + k.ctors[(size_t)i].full;
            c.note("declare %s of %s", full.c_str(), k.name); k.ctors[(size_t)i].declare(k, nm); declare(k, m, false);
            bool have = false; for (auto &e : m.e) have |= e.name == full;
            if (!have) m.e.push_back({full, i, 0}); else c.label("repeated");
            break; }
        case 2: { int w = 1 + (int)c.draw(3); std::string nm = c.pick(names); c.note("declare special %d (%s) of %s again", w, nm.c_str(), k.name); k.redeclare(k, w, nm); declare(k, m, false); break; }
        default: verify(k, m); break;
        }
    } while (c.more(14));
    for (auto ci : used) verify(classes()[ci], model[ci]);
    // what was found is what was declared
    for (auto ci : used) {
        auto const &k = classes()[ci]; auto &m = model[ci]; auto const *mc = rtti::MetaClass::find(k.id());
        for (size_t i = 0; i < m.e.size(); ++i) if (m.e[i].ctor >= 0) {
            auto const &sig = k.ctors[(size_t)m.e[i].ctor].sig; ArgVec a; Judge j{c, sig, a, {}, m.e[i].name};
            for (auto &p : sig.params) { a.push_back(draw_arg(c, p, true)); j.ex.push_back(expect(p, *a.back())); }
            env = Env{}; variant r; auto o = attempt([&] { r = spread([&](auto &&...e) { return mc->getConstructor(i)->invoke(std::forward<decltype(e)>(e)...); }, a); });
            if (j.all() == OK) j.ran(o, nullptr, false, r);
            env = Env{};
        }
    }
}
} // namespace
