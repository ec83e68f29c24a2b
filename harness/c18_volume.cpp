// C18: hundreds of deferred definitions, nested deeply.
#include <common/volume.hpp>
#include <functional>
using namespace vol;
namespace {
using N0 = meta_define<void, void>;
int cells[8];
struct Sp { std::string name; int parent, id, depth, props, reach; bool lazy; std::vector<int> children; int ran = 0; bool want = false, running = false; std::shared_ptr<int> alive; };
struct World {
    pbt::Ctx &c; std::vector<std::unique_ptr<Sp>> all; size_t ran = 0, depth = 0, deepest = 0; bool inside = false;
    explicit World(pbt::Ctx &x): c(x) {}
    int make(int parent, int style, int depth)
    {
        auto s = std::make_unique<Sp>(); s->id = (int)all.size(); s->parent = parent; s->depth = depth; s->name = Names::nth(style, (size_t)s->id);
        s->props = (int)c.draw(4); s->lazy = c.draw(4) != 0; s->reach = (int)c.draw(4); s->alive = std::make_shared<int>(s->id);
        if (parent >= 0) all[(size_t)parent]->children.push_back(s->id);
        all.push_back(std::move(s)); return (int)all.size() - 1;
    }
    template<int Eager, class D> void body(D d, Sp &s)
    {
        for (int i = 0; i < s.props; ++i) d = d._property("p" + std::to_string(i), &cells[i]);
        size_t half = s.children.size() / 2;
        for (size_t k = 0; k < s.children.size(); ++k) {
            if (k == half && s.reach == 2) d = d._property("late", &cells[7]);
            Sp &ch = *all[(size_t)s.children[k]]; auto x = d._namespace(ch.name);
            bool eager = !ch.lazy && Eager > 0;
            if (!eager) { ch.lazy = true; auto token = ch.alive; x = x._lazy([this, &ch, token](N0 y) { run(ch, *token, y); }); c.check(!ch.ran, "%s ran while it was declared", shown(ch.name).c_str()); }
            else if constexpr (Eager > 0) { ch.want = true; ++ch.ran; body<Eager - 1>(x, ch); }
            d = x._end();
            if (s.reach == 3 && k % 3 == 0) find(ch, (size_t)ch.id);        // looks at what it has just declared
        }
        if (s.reach == 2 && s.children.empty()) d = d._property("late", &cells[7]);
        if (s.reach == 1 && !s.children.empty()) look(*all[(size_t)s.children[c.draw(s.children.size())]]);
    }
    void run(Sp &s, int token, N0 d)
    {
        c.check(s.want && !s.running, "the deferred definition of %s (depth %d) runs %s", shown(s.name).c_str(), s.depth, s.running ? "within itself" : "unasked");
        c.check(s.ran == 0 && token == s.id, "the deferred definition of %s runs again", shown(s.name).c_str());
        ++s.ran; ++ran; s.running = true; deepest = std::max(deepest, ++depth); body<2>(d, s); s.running = false; --depth;
    }
    // the way to a namespace; its parents are forced on the way
    MetaContainer const *find(Sp &s, size_t id)
    {
        MetaContainer const *m = MetaNamespace::global(); (void)id;
        if (s.parent >= 0) { auto &p = *all[(size_t)s.parent]; m = find(p, (size_t)p.id); c.check(m != nullptr, "no way to %s", shown(s.name).c_str()); if (!p.ran) p.want = true; }
        auto *r = m->getNamespace(s.name); if (s.parent >= 0) c.check(all[(size_t)s.parent]->ran == 1, "looking a namespace up in %s didn't run its definition", shown(all[(size_t)s.parent]->name).c_str());
        c.check(r && r->name() == s.name, "%s (depth %d) isn't found", shown(s.name).c_str(), s.depth); return r;
    }
    int props(Sp &s) { return s.props + (s.reach == 2); }
    void look(Sp &s)
    {
        auto m = find(s, (size_t)s.id); if (!s.ran) s.want = true;
        size_t k = 0;
        switch (c.draw(6)) {
        case 0: k = m->propertyCount(); break;
        case 1: k = m->namespaceCount(); break;
        case 2: (void)m->getProperty("p0"); break;
        case 3: m->for_each_class([&](MetaClass const *) { ++k; return true; }); break;
        case 4: m->for_each_method([&](MetaMethod const *) { ++k; return true; }); break;
        default: (void)m->getNamespace(size_t{0}); break;
        }
        c.check(s.ran == 1, "a query of %s (depth %d) ran its definition %d times", shown(s.name).c_str(), s.depth, s.ran);
        if (s.running) return;
        c.check(m->propertyCount() == (size_t)props(s) && m->namespaceCount() == s.children.size(), "%s has %zu properties and %zu namespaces instead of %d and %zu", shown(s.name).c_str(), m->propertyCount(), m->namespaceCount(), props(s), s.children.size());
        for (size_t i = 0; i < s.children.size(); ++i) { auto *a = m->getNamespace(i), *b = m->getNamespace(all[(size_t)s.children[i]]->name); c.check(a && a == b && a->owner() == m, "%s: the namespace number %zu is lost", shown(s.name).c_str(), i); }
        for (int i = 0; i < s.props; ++i) { auto *p = m->getProperty("p" + std::to_string(i)); c.check(p && &p->get().ref<int>() == &cells[i], "%s lost property %d", shown(s.name).c_str(), i); }
    }
    void quiet() { for (auto &s : all) c.check(s->ran == (s->want ? 1 : 0), "the definition of %s ran %d times", shown(s->name).c_str(), s->ran); }
};
LAW(volume, pbt::ISOLATED, 1200, 20000, "a tree of up to 300 namespaces, most of them defined lazily and up to 60 deep; definitions look at what they declare, which nests their execution; queries in random order; every definition runs exactly once, at the first query of its content and not before; non-trivial: more than 40 deferred definitions ran, or more than 8 within each other")
{
    World w(c); std::vector<int> roots; int style = (int)c.draw(6);
    size_t nr = 1 + c.draw(c.chance(1, 4) ? 120 : 6); for (size_t i = 0; i < nr; ++i) roots.push_back(w.make(-1, style, 0));
    size_t budget = c.draw(180);
    while (w.all.size() < budget + nr) { size_t p = c.chance(1, 2) ? w.all.size() - 1 : (size_t)c.draw(w.all.size()); if (w.all[p]->depth >= 60) p = 0; w.make((int)p, style, w.all[p]->depth + 1); }
    auto g = global_define(); meta_define<void> d = g;
    for (int r : roots) {
        auto &s = *w.all[(size_t)r]; auto x = d._namespace(s.name);
        if (s.lazy) x = x._lazy([&w, &s, token = s.alive](N0 y) { w.run(s, *token, y); }); else { s.want = true; ++s.ran; w.body<2>(x, s); }
        d = x._end();
    }
    w.quiet();
    size_t steps = 0; while (++steps < 60 && c.more(25)) { auto &s = *w.all[(size_t)c.draw(w.all.size())]; if (c.chance(1, 3)) w.find(s, 0); else w.look(s); w.quiet(); }
    if (c.chance(1, 2)) for (auto &s : w.all) w.look(*s); else for (size_t i = w.all.size(); i--; ) w.look(*w.all[i]);
    w.quiet(); c.note("%zu namespaces, %zu deferred definitions ran, at most %zu within each other", w.all.size(), w.ran, w.deepest);
    if (w.ran > 40 || w.deepest > 8) c.nontrivial();
}
} // namespace
