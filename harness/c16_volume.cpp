// C16: registries of many items.
#include <common/volume.hpp>
#include <set>
#include <unordered_map>
using namespace vol;
namespace {
enum class VE { one = 1 };
constexpr int NV = 600, NF = 64, NC = 48;
int cells[NV];
template<int I> int fn(int x) { return x * 1000 + I; }
template<size_t... I> constexpr auto fns(std::index_sequence<I...>) { return std::array<int (*)(int), sizeof...(I)>{&fn<(int)I>...}; }
auto const functions = fns(std::make_index_sequence<NF>{});
template<int I> struct VC { int x = I; };
struct Box { int base = 0; };

struct Item { std::string name; int payload; MetaItem const *item = nullptr; };
struct Space {
    std::vector<std::string> path; MetaContainer const *m = nullptr;
    std::vector<Item> items[mcatCount]; std::unordered_map<std::string, size_t> index[mcatCount];
};
MetaItem const *byName(MetaContainer const *m, int cat, std::string const &n)
{ switch (cat) { case mcatNamespace: return m->getNamespace(n); case mcatClass: return m->getClass(n); case mcatProperty: return m->getProperty(n); case mcatMethod: return m->getMethod(n); default: return m->getEnum(n); } }
MetaItem const *byIndex(MetaContainer const *m, int cat, size_t n)
{ switch (cat) { case mcatNamespace: return m->getNamespace(n); case mcatClass: return m->getClass(n); case mcatProperty: return m->getProperty(n); case mcatMethod: return m->getMethod(n); default: return m->getEnum(n); } }
size_t count(MetaContainer const *m, int cat)
{ switch (cat) { case mcatNamespace: return m->namespaceCount(); case mcatClass: return m->classCount(); case mcatProperty: return m->propertyCount(); case mcatMethod: return m->methodCount(); default: return m->enumCount(); } }

template<class D> struct ClassTable { using F = void (*)(D &, std::string const &); F f[NC]; template<int... I> ClassTable(std::integer_sequence<int, I...>): f{[](D &d, std::string const &n) { d = d.template _class<VC<I>>(n)._end(); }...} {} };

struct World {
    pbt::Ctx &c; std::vector<std::unique_ptr<Space>> spaces; std::map<int, std::string> classes; std::set<MetaItem const *> known; size_t total = 0;
    explicit World(pbt::Ctx &x): c(x) { spaces.emplace_back(new Space); spaces[0]->m = MetaNamespace::global(); }
    std::string qualified(Space const &s) { std::string q; for (auto &p : s.path) q += "::" + p; return q; }
    // remembers what was declared; false: it was there already
    bool declared(Space &s, int cat, std::string const &n, int payload)
    { if (!s.index[cat].emplace(n, s.items[cat].size()).second) return false; s.items[cat].push_back({n, payload}); ++total; return true; }
    void declare(Space &s, int cat, int style, size_t from, size_t k)
    {
        open(s.path, [&](auto d) {
            for (size_t i = from; i < from + k; ++i) {
                auto n = Names::nth(style, i); std::string copy = n;
                switch (cat) {
                case mcatProperty: d = d._property(copy, &cells[i % NV]); declared(s, cat, n, (int)(i % NV)); break;
                case mcatMethod: d = d._method(copy, functions[i % NF]); declared(s, cat, n + "(int)", (int)(i % NF)); break;
                case mcatEnum: d = d.template _enum<VE>(copy); declared(s, cat, n, 0); break;
                case mcatNamespace: d = d._namespace(copy)._end(); if (declared(s, cat, n, 0) && s.path.size() < 7 && spaces.size() < 12) { spaces.emplace_back(new Space); spaces.back()->path = s.path; spaces.back()->path.push_back(n); } break;
                default: break;
                }
                copy.assign(copy.size(), '?');
            }
        });
    }
    void declareClasses(std::string const &prefix, int from, int k)
    {
        auto g = global_define(); meta_define<void> d = g; static ClassTable<meta_define<void>> const t{std::make_integer_sequence<int, NC>{}};
        for (int i = from; i < from + k && i < NC; ++i) { if (classes.count(i)) continue; auto n = prefix + std::to_string(i); if (spaces[0]->index[mcatClass].count(n)) continue; t.f[i](d, n); classes[i] = n; declared(*spaces[0], mcatClass, n, i); }
    }
    void same(Space &s, int cat, size_t i, MetaItem const *m, char const *how)
    {
        auto &it = s.items[cat][i]; c.check(m != nullptr, "item %zu %s of %zu of category %d is not found %s", i, shown(it.name).c_str(), s.items[cat].size(), cat, how);
        if (it.item == m) return;
        c.check(!it.item && known.insert(m).second, "item %zu %s of category %d is found as %s %s", i, shown(it.name).c_str(), cat, shown(m->name()).c_str(), how); it.item = m;
        c.check(m->name() == it.name && m->category() == cat && m->owner() == s.m && m->qualifiedName() == qualified(s) + "::" + it.name, "%s has name %s, owner or qualified name %s", shown(it.name).c_str(), shown(m->name()).c_str(), shown(m->qualifiedName()).c_str());
        if (cat == mcatProperty) c.check(static_cast<MetaProperty const *>(m)->get().ref<int>() == it.payload, "property %s reads another cell", shown(it.name).c_str());
        if (cat == mcatMethod) c.check(static_cast<MetaMethod const *>(m)->invoke(3).template to<int>() == 3000 + it.payload, "method %s calls another function", shown(it.name).c_str());
    }
    void verify(Space &s)
    {
        if (!s.m) { MetaContainer const *m = MetaNamespace::global(); for (auto &p : s.path) { m = m->getNamespace(p); c.check(m != nullptr, "namespace %s is not found", shown(p).c_str()); } s.m = m; }
        for (int cat : {mcatNamespace, mcatClass, mcatProperty, mcatMethod, mcatEnum}) {
            auto &v = s.items[cat]; c.check(count(s.m, cat) == v.size(), "%zu items of category %d instead of %zu", count(s.m, cat), cat, v.size());
            if (c.chance(1, 2)) for (size_t i = 0; i < v.size(); ++i) same(s, cat, i, byIndex(s.m, cat, i), "by index"); else for (size_t i = v.size(); i--; ) same(s, cat, i, byIndex(s.m, cat, i), "by index");
            c.check(!byIndex(s.m, cat, v.size()) && !byIndex(s.m, cat, v.size() + 1), "an item of category %d behind the last", cat);
            for (size_t i = 0; i < v.size(); ++i) { same(s, cat, i, byName(s.m, cat, v[i].name), "by name"); if (cat == mcatMethod) same(s, cat, i, s.m->getMethod(v[i].name.substr(0, v[i].name.size() - 5)), "by bare name"); }
            for (size_t i = 0; i < v.size(); i += 1 + v.size() / 8) for (auto n : {v[i].name + "0", v[i].name.substr(1), v[i].name + v[i].name}) if (!s.index[cat].count(n) && !s.index[cat].count(n + "(int)")) c.check(!byName(s.m, cat, n), "category %d: %s is found", cat, shown(n).c_str());
        }
        size_t stop = c.draw(s.items[mcatMethod].size() + 2), k = 0; s.m->for_each_method([&](MetaMethod const *m) { c.check(k < s.items[mcatMethod].size() && s.items[mcatMethod][k].item == m, "enumeration visits another method as number %zu", k); return k++ < stop; });
        c.check(k == std::min(stop + 1, s.items[mcatMethod].size()), "the enumeration of methods visits %zu", k);
        k = 0; s.m->for_each_class([&](MetaClass const *m) { c.check(k < s.items[mcatClass].size() && s.items[mcatClass][k].item == m, "enumeration visits another class as number %zu", k); ++k; return true; });
        c.check(k == s.items[mcatClass].size(), "the enumeration of classes visits %zu", k);
        s.m->for_each_class({}); s.m->for_each_method({});
    }
};
LAW(volume, pbt::ISOLATED, 800, 16000, "up to 12 namespaces nested up to 8 deep with blocks of up to 300 declarations each, whose names share prefixes, differ in one place, or are long, partly declared twice; up to 48 classes; everything compared by index (in both directions), name, bare name and enumeration in between and at the end; non-trivial: more than 64 items")
{
    World w(c); for (int i = 0; i < NV; ++i) cells[i] = i;
    do {
        auto &s = *w.spaces[c.draw(w.spaces.size())];
        switch (c.weighted({3, 4, 3, 3, 1, 2})) {
        case 0: w.declare(s, mcatNamespace, (int)c.draw(6), c.draw(20), 1 + c.draw(c.chance(1, 4) ? 60 : 3)); break;
        case 1: w.declare(s, mcatMethod, (int)c.draw(6), c.draw(c.chance(1, 2) ? 8 : 300), 1 + c.draw(c.chance(1, 3) ? 300 : 20)); break;
        case 2: w.declare(s, mcatProperty, (int)c.draw(6), c.draw(c.chance(1, 2) ? 8 : 300), 1 + c.draw(c.chance(1, 3) ? 300 : 20)); break;
        case 3: w.declare(s, mcatEnum, (int)c.draw(6), c.draw(c.chance(1, 2) ? 8 : 300), 1 + c.draw(c.chance(1, 3) ? 200 : 20)); break;
        case 4: { static char const *const p[] = {"C", "Klass", "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", ""}; w.declareClasses(p[c.draw(4)] + std::string("c"), (int)c.draw(NC), 1 + (int)c.draw(NC)); break; }
        default: w.verify(s); break;
        }
    } while (w.total < 1500 && c.more(10));
    for (auto &s : w.spaces) w.verify(*s);
    for (auto &k : w.classes) { auto *m = w.spaces[0]->m->getClass(k.second); c.check(m && m->constructorCount() == 3, "class %s", k.second.c_str()); }
    c.note("%zu items in %zu namespaces", w.total, w.spaces.size());
    if (w.total > 64) c.nontrivial();
}
} // namespace
