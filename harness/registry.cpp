// Model, drawing and queries of the registry histories (see common/registry.hpp).
#include <common/registry.hpp>
#include <rtti/metatype.h>

namespace reg {
struct Out {};                                                             // thrown by callbacks

std::string method_sig(int type, int k, std::string const &name)
{
    auto c = "reg::RC<" + std::to_string(type) + ">&";
    if (type < 0) { static char const *s[] = {"int", "int", "", "int, int", "double"}; return name + "(" + s[k] + ")"; }
    switch (k) { case 0: case 1: return name + "(" + c + ", int)"; case 2: return name + "(const " + c + ")"; case 3: return name + "(const " + c + ", int, int)"; case 4: return name + "(const " + c + ", int)"; case 5: case 6: return name + "(int)"; default: return name + "()"; }
}
std::vector<int> base_list(int i, int k)
{
    switch (i) {
    case 3: return {0};
    case 8: return {7};
    case 4: switch (k) { case 0: return {1, 2}; case 1: return {2, 1}; case 2: return {1}; default: return {2}; }
    case 5: switch (k) { case 0: return {3, 4}; case 1: return {4, 3}; case 2: return {4}; case 3: return {3}; case 4: return {0, 1, 4}; default: return {2}; }
    case 6: switch (k) { case 0: return {5}; case 1: return {4, 5}; default: return {0}; }
    default: return {};
    }
}
static int base_lists(int i) { return i == 3 || i == 8 ? 1 : i == 4 ? 4 : i == 5 ? 6 : i == 6 ? 3 : 0; }

// ---------------------------------------------------------------- asking
Ask::Ask(World &x, char const *t, std::function<bool(Node *)> f): w(x), may(std::move(f)), what(t) { w.asks.push_back(this); }
Ask::~Ask() { for (size_t i = w.asks.size(); i--; ) if (w.asks[i] == this) { w.asks.erase(w.asks.begin() + (long)i); break; } }
void Ask::done() { for (auto &d : musts) w.c.check(d->ran, "%s does not execute the pending deferred definition of %s", what, d->n->path().c_str()); }

World::World(pbt::Ctx &x, Mix const &m): c(x), mix(m) { all.emplace_back(new Node); root = all[0].get(); root->cat = mcatNamespace; root->name = "global"; root->owner = nullptr; root->item = MetaNamespace::global(); byItem[root->item] = root; }

static std::string const &pool(size_t i)
{
    static std::string const p[] = {"a", "b", "ab", "c", "item", "ITEM", "a::b", "a b", "item1", "x", "_", std::string(300, 'n'), "\xc3\xa9", std::string("a\0b", 3), "global", "reg::RC<0>", "operator=", "0"};
    return p[i % (sizeof p / sizeof *p)];
}
std::string World::name() { return pool(c.chance(2, 3) ? c.draw(4) : c.draw(18)); }
Val World::value(bool lv) { Val v; v.kind = (int)c.draw(lv ? 7 : 6); v.n = (long)c.draw(v.kind == 5 ? 3 : 1000); return v; }

Op World::next(Node *n, int depth, bool attrOk, bool enumOpen, int type)
{
    Op o;
    if (abandon) return o;
    if (budget <= 0 || !c.more(running.empty() ? 9 : 6)) { o.abandon = !elsewhere && running.empty() && c.chance(1, 10); return o; }
    --budget; ++spent;
    unsigned wt[KINDS]; unsigned total = 0;
    for (int k = 0; k < KINDS; ++k) {
        unsigned x = type < 0 ? mix.ns[k] : mix.cls[k];
        if (k == NS && (type >= 0 || depth >= 3)) x = 0;
        if (k == CLASS && (elsewhere || (type >= 2) )) x = 0;
        if (k == ELEMENT && !enumOpen) x = 0;
        if (k == ATTR && !attrOk) x = 0;
        if (k == BASE && !base_lists(type)) x = 0;
        if (k == CTOR && type < 0) x = 0;
        if (k == ELSEWHERE && running.empty()) x = 0;
        wt[k] = x; total += x;
    }
    if (!total) return o;
    auto r = c.draw(total); for (o.kind = 0; r >= wt[o.kind]; ++o.kind) r -= wt[o.kind];
    o.name = name();
    switch (o.kind) {
    case CLASS: o.k = (int)c.draw(N); o.v.kind = c.chance(1, 8); if (type < 0 && !o.v.kind && c.chance(1, 2)) { for (int t = 0; t < N; ++t) if (cls[t] && cls[t]->owner == n && (t == o.k || c.chance(1, 3))) { o.k = t; o.name = cls[t]->name; break; } } break;
    case METHOD: o.k = (int)c.draw(type < 0 ? NMETHODS : METHODS); break;
    case PROP: o.k = (int)c.draw(type < 0 ? NPROPS : PROPS); break;
    case CTOR: o.k = (int)c.draw(CTORS); break;
    case BASE: o.k = (int)c.draw((uint64_t)base_lists(type)); break;
    case ENUM: o.k = (int)c.draw(2); break;
    case ELEMENT: o.v = value(false); if (c.chance(1, 20)) o.name.clear(); break;
    case ATTR: o.v = value(true); if (c.chance(1, 20)) o.name.clear(); break;
    default: break;
    }
    if (c.tracing() && o.kind != QUERY) {
        static char const *t[] = {"", "_namespace", "_class", "_enum", "_element", "_method", "_property", "_constructor", "_base", "_attribute", "_lazy", "", "(a definition elsewhere)"};
        c.note("%*s%s: %s %s #%d", 2 * (int)running.size(), "", n->path().c_str(), t[o.kind], o.kind == LAZY || o.kind == BASE ? "" : o.name.size() > 50 ? "nnn..." : o.name.c_str(), o.kind == ELEMENT || o.kind == ATTR ? o.v.kind * 1000 + (int)o.v.n : o.k);
    }
    return o;
}

Node *World::add(Node *owner, MetaCategory cat, std::string const &name, int type, int fn, std::string const &base)
{
    if (auto *k = owner->kid(cat, name)) { ++repeats; return k; }
    all.emplace_back(new Node); auto *n = all.back().get(); n->cat = cat; n->name = name; n->base = base; n->owner = owner; n->type = type; n->fn = fn;
    if (cat == mcatConstructor) { auto p = name.find('('); n->base = p == std::string::npos ? name : name.substr(0, p); }
    owner->kids[cat].push_back(n); return n;
}
void World::store(std::vector<std::pair<std::string, Val>> &d, std::string const &n, Val v)
{ if (n.empty()) return; for (auto &x : d) if (x.first == n) { x.second = v; ++overwrites; return; } d.emplace_back(n, v); }
std::shared_ptr<Def> World::defer(Node *n)
{
    auto d = std::make_shared<Def>(); d->n = n; d->content = 0; n->def = d;
    if (!running.empty()) d->foreign = running.back()->foreign || !within(n, running.back()->n);
    return d;
}
void World::enter(Def &d)
{
    c.note("%*s-> deferred definition of %s", 2 * (int)running.size(), "", d.n->path().c_str());
    c.check(!d.ran, "the deferred definition of %s is executed again", d.n->path().c_str());
    c.check(!asks.empty() && asks.back()->may(d.n), "the deferred definition of %s is executed by %s", d.n->path().c_str(), asks.empty() ? "nobody's request" : asks.back()->what);
    d.ran = d.running = true; ++ran; if (!running.empty()) ++nested; running.push_back(&d);
    denied.emplace_back(new Ask(*this, "(something in a deferred definition)", [](Node *) { return false; }));
    if (budget < 3) budget = 3;
}
void World::leave(Def &d)
{
    c.note("%*s<- %s", 2 * (int)running.size() - 2, "", d.n->path().c_str());
    denied.pop_back(); running.pop_back(); d.running = false; d.n->def = nullptr;
}
void World::touched(Node *n) { if (!running.empty() && running.back()->n != n) for (auto *a : asks) if (a->up) a->dirty = true; }

// ---------------------------------------------------------------- queries
static bool never(Node *) { return false; }
static MetaContainer const *as_container(MetaItem const *i) { return static_cast<MetaContainer const *>(i); }
static MetaItem const *get(MetaContainer const *m, int cat, std::string_view n)
{
    switch (cat) { case mcatNamespace: return m->getNamespace(n); case mcatClass: return m->getClass(n); case mcatProperty: return m->getProperty(n); case mcatMethod: return m->getMethod(n); case mcatEnum: return m->getEnum(n); default: return m->getConstructor(n); }
}
static MetaItem const *get(MetaContainer const *m, int cat, std::size_t n)
{
    switch (cat) { case mcatNamespace: return m->getNamespace(n); case mcatClass: return m->getClass(n); case mcatProperty: return m->getProperty(n); case mcatMethod: return m->getMethod(n); case mcatEnum: return m->getEnum(n); default: return m->getConstructor(n); }
}
static size_t count(MetaContainer const *m, int cat)
{
    switch (cat) { case mcatNamespace: return m->namespaceCount(); case mcatClass: return m->classCount(); case mcatProperty: return m->propertyCount(); case mcatMethod: return m->methodCount(); case mcatEnum: return m->enumCount(); default: return m->constructorCount(); }
}
static char const *cat_name(int c) { static char const *n[] = {"namespace", "class", "property", "method", "enum", "constructor"}; return n[c]; }
static std::string shown(std::string s) { if (s.size() > 60) s = s.substr(0, 20) + "..." + s.substr(s.size() - 10); for (auto &x : s) if (!x) x = '0'; return s; }

void World::same(Node *n, MetaItem const *item, char const *how)
{
    c.check(item != nullptr, "%s %s is not found %s", cat_name(n->cat), shown(n->path()).c_str(), how);
    if (n->item == item) return;
    auto it = byItem.find(item);
    c.check(!n->item && it == byItem.end(), "%s %s is found as %s %s", shown(n->path()).c_str(), how, it == byItem.end() ? "something new" : shown(it->second->path()).c_str(), it == byItem.end() ? "" : cat_name(it->second->cat));
    n->item = item; byItem[item] = n; facts(n);
}
void World::facts(Node *n)
{
    auto *i = n->item; Ask a(*this, "taking a name", never); auto p = shown(n->path());
    c.check(i->name() == n->name, "%s is named %s", p.c_str(), shown(i->name()).c_str());
    c.check(i->category() == n->cat, "%s has category %d", p.c_str(), (int)i->category());
    c.check(i->qualifiedName() == n->path(), "%s has the qualified name %s", p.c_str(), shown(i->qualifiedName()).c_str());
    if (!n->owner) { c.check(i->owner() == nullptr, "the global namespace has an owner"); }
    else { c.check(i->owner() != nullptr, "%s has no owner", p.c_str()); same(n->owner, i->owner(), "as owner"); }
    if (n->cat == mcatNamespace) c.check(static_cast<MetaNamespace const *>(i)->isGlobal() == !n->owner, "%s: isGlobal", p.c_str());
    if (n->cat == mcatClass) c.check(static_cast<MetaClass const *>(i)->metaTypeId() == ops[n->type].id(), "%s: type id", p.c_str());
}
MetaItem const *World::resolve(Node *n)
{
    if (n->item) return n->item;
    if (n->cat == mcatClass) { MetaItem const *i; { Ask a(*this, "finding a class by type id", never); i = MetaClass::find(ops[n->type].id()); } same(n, i, "by type id"); return n->item; }
    auto *o = as_container(resolve(n->owner)); MetaItem const *i; auto *ow = n->owner;
    { Ask a(*this, "finding by name", [ow](Node *x) { return x == ow; }); i = get(o, n->cat, std::string_view(n->name)); } same(n, i, "by name"); return n->item;
}
static Node *method_of(World &w, Node *n, int cat, std::string const &name)
{
    if (name.empty()) return nullptr;
    for (auto *k : n->kids[cat]) if (k->name == name || (cat != mcatProperty && k->base == name)) return k;
    if (cat != mcatConstructor) for (int b : n->bases) if (auto *k = method_of(w, w.cls[b], cat, name)) return k;
    return nullptr;
}
void World::lookups(Node *n)
{
    auto *m = as_container(resolve(n)); int cat = (int)c.draw(mcatCount); auto self = [n](Node *x) { return x == n; }; auto p = shown(n->path());
    switch (c.weighted({2, 3, 5, 2})) {
    case 0: { size_t r; { Ask a(*this, "counting", self); a.must(n); r = count(m, cat); a.done(); } c.check(r == n->kids[cat].size(), "%s has %zu items of category %s instead of %zu", p.c_str(), r, cat_name(cat), n->kids[cat].size()); break; }
    case 1: {
        size_t i = c.draw(n->kids[cat].size() + 2); if (c.chance(1, 12)) i = c.chance(1, 2) ? (size_t)-1 : (size_t)1 << 32;
        MetaItem const *r; { Ask a(*this, "taking by index", self); a.must(n); r = get(m, cat, i); a.done(); }
        if (i < n->kids[cat].size()) same(n->kids[cat][i], r, "by index"); else c.check(!r, "%s number %zu of %s is not null", cat_name(cat), i, p.c_str());
        break; }
    case 2: {
        std::string name = this->name();
        if (c.chance(3, 4)) {
            Node *from = n; if (n->cat == mcatClass && c.chance(1, 2)) { from = cls[c.draw(N)]; if (!from) from = n; }
            auto &k = from->kids[c.chance(4, 5) ? cat : (int)c.draw(mcatCount)]; if (!k.empty()) { auto *x = k[c.draw(k.size())]; name = !x->base.empty() && c.chance(1, 2) ? x->base : x->name; }
            switch (c.weighted({12, 1, 1, 1, 1, 1, 1, 1})) {
            case 1: name += "x"; break; case 2: if (!name.empty()) name.pop_back(); break; case 3: name = ""; break; case 4: name += "()"; break; case 5: name += "("; break; case 6: if (!name.empty()) name[0] ^= 32; break; case 7: name = " " + name; break; default: break; }
        }
        MetaItem const *r; bool dirty; { Ask a(*this, "finding by name", [this, n, cat](Node *x) { return x == n || (n->cat == mcatClass && (cat == mcatMethod || cat == mcatProperty) && x->cat == mcatClass && above(n, x)); }); a.up = true; if (!name.empty()) a.must(n); r = get(m, cat, std::string_view(name)); a.done(); dirty = a.dirty; }
        if (dirty) { c.excluded("the hierarchy changed while it was being searched"); break; }
        Node *want = cat == mcatMethod || cat == mcatProperty || cat == mcatConstructor ? method_of(*this, n, cat, name) : n->kid((MetaCategory)cat, name);
        if (want) { same(want, r, "by name"); if (want->owner != n) c.label("inherited"); } else { auto it = byItem.find(r); c.check(!r, "%s %s of %s is found: %s", cat_name(cat), shown(name).c_str(), p.c_str(), it == byItem.end() ? "?" : shown(it->second->path()).c_str()); }
        break; }
    default: {
        size_t stop = c.chance(1, 2) ? (size_t)-1 : c.draw(n->kids[mcatMethod].size() + 2); std::vector<MetaItem const *> seen; bool classes = c.chance(1, 2); cat = classes ? mcatClass : mcatMethod;
        { Ask a(*this, "enumerating", self); a.must(n); bool out = stop != (size_t)-1 && c.chance(1, 3), came = false; auto f = [&](MetaItem const *i) { seen.push_back(i); if (out && seen.size() > stop) throw Out{}; return seen.size() <= stop; };
          try { if (classes) m->for_each_class([&](MetaClass const *x) { return f(x); }); else m->for_each_method([&](MetaMethod const *x) { return f(x); }); } catch (Out const &) { came = true; }
          c.check(came == (out && seen.size() > stop), "an exception does not leave the enumeration"); a.done(); }
        auto &k = n->kids[cat]; size_t want = std::min(k.size(), stop == (size_t)-1 ? k.size() : stop + 1);
        c.check(seen.size() == want, "enumerating the %s items of %s visits %zu instead of %zu", cat_name(cat), p.c_str(), seen.size(), want);
        for (size_t i = 0; i < want; ++i) same(k[i], seen[i], "by enumeration");
        break; }
    }
}
static bool equal(Val v, variant const &x)
{
    switch (v.kind) {
    case 0: case 3: case 6: return x.is<int>() && *x.data<int>() == (int)v.n;
    case 1: return x.is<std::string>() && *x.data<std::string>() == "s" + std::to_string(v.n);
    case 2: return x.is<double>() && *x.data<double>() == (double)v.n / 4;
    case 4: return x.is<std::vector<int>>() && *x.data<std::vector<int>>() == std::vector<int>{(int)v.n, 1};
    default: return x.is<E>() && *x.data<E>() == (E)v.n;
    }
}
using Dict = std::vector<std::pair<std::string, Val>>;
// one dictionary question; q: 0 count, 1 by name, 2 by position, 3 enumeration
template<class Count, class ByName, class ByPos, class NameOf, class Each> static void dict(World &w, Node *n, Dict const &d, char const *what, Node *asked, Count count, ByName byName, ByPos byPos, NameOf nameOf, Each each, int q)
{
    auto &c = w.c; auto may = [asked](Node *x) { return x == asked; }; auto p = shown(n->path());
    if (q < 0) q = (int)c.weighted({2, 5, 3, 2});
    switch (q) {
    case 0: { size_t r; { Ask a(w, "counting attributes", may); if (asked) a.must(asked); r = count(); a.done(); } c.check(r == d.size(), "%s has %zu %ss instead of %zu", p.c_str(), r, what, d.size()); break; }
    case 1: {
        std::string name = w.name(); if (!d.empty() && c.chance(2, 3)) name = d[c.draw(d.size())].first; switch (c.weighted({12, 1, 1, 1, 1})) { case 1: name += "x"; break; case 2: name.pop_back(); break; case 3: name = ""; break; case 4: name[0] ^= 32; break; default: break; }
        variant const *r; { Ask a(w, "reading an attribute", may); if (asked) a.must(asked); r = &byName(name); a.done(); }
        for (auto &x : d) if (x.first == name) { c.check(equal(x.second, *r), "%s %s of %s has another value", what, shown(name).c_str(), p.c_str()); return; }
        c.check(r->empty(), "%s %s of %s is not empty", what, shown(name).c_str(), p.c_str()); break; }
    case 2: {
        size_t i = c.draw(d.size() + 2); if (c.chance(1, 12)) i = (size_t)-1;
        variant const *r; std::string s; { Ask a(w, "reading an attribute", may); if (asked) a.must(asked); if (c.chance(1, 2)) { r = &byPos(i); s = nameOf(i); } else { s = nameOf(i); r = &byPos(i); } a.done(); }
        if (i < d.size()) c.check(s == d[i].first && equal(d[i].second, *r), "%s number %zu of %s is %s or has another value", what, i, p.c_str(), shown(s).c_str());
        else c.check(s.empty() && r->empty(), "%s number %zu of %s is %s", what, i, p.c_str(), shown(s).c_str());
        break; }
    default: {
        size_t stop = c.chance(1, 2) ? (size_t)-1 : c.draw(d.size() + 2), k = 0; std::string bad; Dict const *pd = &d;
        { Ask a(w, "enumerating attributes", may); if (asked) a.must(asked); bool out = stop != (size_t)-1 && c.chance(1, 3), came = false;
          try { each([&](std::string_view s, variant const &v) { if (k >= pd->size() || (*pd)[k].first != s || !equal((*pd)[k].second, v)) bad = "visits " + shown(std::string(s)) + " as number " + std::to_string(k); if (++k <= stop) return true; if (out) throw Out{}; return false; }); } catch (Out const &) { came = true; }
          c.check(came == (out && k > stop), "an exception does not leave the enumeration"); a.done(); }
        if (bad.empty() && k != std::min(d.size(), stop == (size_t)-1 ? d.size() : stop + 1)) bad = "visits " + std::to_string(k);
        c.check(bad.empty(), "enumerating %ss of %s %s", what, p.c_str(), bad.c_str());
        break; }
    }
}
static void attrs(World &w, Node *n, int q)
{
    auto *m = w.resolve(n);
    dict(w, n, n->attrs, "attribute", n->container() ? n : nullptr, [&] { return m->attributeCount(); }, [&](std::string const &s) -> variant const & { return m->attribute(std::string_view(s)); }, [&](size_t i) -> variant const & { return m->attribute(i); }, [&](size_t i) { return m->attributeName(i); }, [&](auto f) { m->for_each_attribute(f); }, q);
}
static void elems(World &w, Node *n, int q)
{
    auto *m = static_cast<MetaEnum const *>(w.resolve(n));
    dict(w, n, n->elems, "element", nullptr, [&] { return m->elementCount(); }, [&](std::string const &s) -> variant const & { return m->element(std::string_view(s)); }, [&](size_t i) -> variant const & { return m->element(i); }, [&](size_t i) { return m->elementName(i); }, [&](auto f) { m->for_each_element(f); }, q);
}
void World::attributes(Node *n) { attrs(*this, n, -1); }
void World::elements(Node *n) { elems(*this, n, -1); }
void World::classFacts(Node *n, bool full)
{
    if (!full) {                                                          // a single question: it may be the first one
        auto *m = static_cast<MetaClass const *>(resolve(n)); auto self = [n](Node *x) { return x == n; }; auto p = shown(n->path()); int q = (int)c.weighted({1, 1, 1, 1, 3}); bool d = q & 1; auto const &l = d ? n->derived : n->bases;
        if (q < 2) { size_t r; { Ask a(*this, "counting bases", self); a.must(n); r = d ? m->derivedClassCount() : m->baseClassCount(); a.done(); } c.check(r == l.size(), "%s has %zu %s classes instead of %zu", p.c_str(), r, d ? "derived" : "base", l.size()); return; }
        if (q < 4) { size_t i = c.draw(l.size() + 2); MetaClass const *x; { Ask a(*this, "taking a base", self); a.must(n); x = d ? m->derivedClass(i) : m->baseClass(i); a.done(); } if (i < l.size()) same(cls[l[i]], x, d ? "as derived class" : "as base class"); else c.check(!x, "%s number %zu of %s is not null", d ? "derived class" : "base class", i, p.c_str()); return; }
        inherited(n); return;
    }
    auto *m = static_cast<MetaClass const *>(resolve(n)); auto self = [n](Node *x) { return x == n; }; auto p = shown(n->path());
    for (int d = 0; d < 2; ++d) {
        size_t r; { Ask a(*this, "counting bases", self); a.must(n); r = d ? m->derivedClassCount() : m->baseClassCount(); a.done(); }
        auto const &l = d ? n->derived : n->bases; c.check(r == l.size(), "%s has %zu %s classes instead of %zu", p.c_str(), r, d ? "derived" : "base", l.size());
        for (size_t i = 0; i < l.size() + 1; ++i) {
            MetaClass const *x; { Ask a(*this, "taking a base", self); a.must(n); x = d ? m->derivedClass(i) : m->baseClass(i); a.done(); }
            if (i < l.size()) same(cls[l[i]], x, d ? "as derived class" : "as base class"); else c.check(!x, "%s number %zu of %s is not null", d ? "derived class" : "base class", i, p.c_str());
        }
    }
    inherited(n);
}
void World::inherited(Node *n)
{
    auto *m = static_cast<MetaClass const *>(resolve(n)); auto p = shown(n->path());
    Node *b = cls[c.draw(N)]; MetaClass const *bm = nullptr; if (b) bm = static_cast<MetaClass const *>(resolve(b));
    bool r, dirty; { Ask a(*this, "inheritedFrom", [this, n](Node *x) { return x->cat == mcatClass && above(n, x); }); a.up = true; if (b && b != n) a.must(n); r = m->inheritedFrom(bm); a.done(); dirty = a.dirty; }
    if (dirty) c.excluded("the hierarchy changed while it was being searched"); else c.check(r == (b && above(n, b)), "%s is %s from %s", p.c_str(), r ? "derived" : "not derived", b ? shown(b->path()).c_str() : "null");
}
void World::find(int i)
{
    auto id = ops[i].id(); MetaClass const *m[] = {MetaClass::find(id), MetaClass::find(std::string_view(ops[i].typeName())), MetaType{id}.metaClass()};
    for (auto *x : m) if (cls[i]) same(cls[i], x, "by type"); else c.check(!x, "the unregistered class RC<%d> is found as %s", i, x ? shown(x->qualifiedName()).c_str() : "");
}
void World::finds()
{
    Ask a(*this, "finding a class", never);
    for (int i = 0; i < N; ++i) find(i);
    c.check(!MetaClass::find(metaTypeId<int>()) && !MetaClass::find("no such type") && !MetaClass::find(MetaType_ID{}), "a class is found by what is not a class");
}
void World::force(Node *n, bool all_)
{
    auto *m = as_container(resolve(n)); std::vector<Node *> below; for (auto &x : all) if (x->container() && (x.get() == n || (all_ && within(x.get(), n)))) below.push_back(x.get());
    c.note("%*sforce %s%s", 2 * (int)running.size(), "", shown(n->path()).c_str(), all_ ? " and all below" : "");
    size_t before = all.size();
    { Ask a(*this, "forceDeferredDefine", [this, n, all_](Node *x) { return all_ ? within(x, n) : x == n; }); for (auto *x : below) a.must(x); m->forceDeferredDefine(all_ ? MetaContainer::ForceDeferred::Recursive : MetaContainer::ForceDeferred::SelfOnly); a.done(); }
    // what the forced definitions themselves declared lazily below is forced as well
    if (all_) for (size_t i = before; i < all.size(); ++i) { auto *x = all[i].get(); if (x->container() && within(x, n) && x->def && !x->def->running) c.check(x->def->foreign, "forcing %s leaves %s pending", shown(n->path()).c_str(), shown(x->path()).c_str()); }
}
void World::use(Node *n)
{
    int cat = n->cat == mcatNamespace ? c.chance(1, 2) ? mcatMethod : mcatProperty : c.chance(1, 3) ? mcatMethod : c.chance(1, 2) ? mcatProperty : mcatConstructor; if (n->kids[cat].empty()) return;
    auto *k = n->kids[cat][c.draw(n->kids[cat].size())]; auto *i = resolve(k); long r, want = (n->type < 0 ? 10000 : n->type * 100) + k->fn;
    if (cat == mcatMethod) { auto *m = static_cast<MetaMethod const *>(i); if (n->type >= 0) r = ops[n->type].call(m, k->fn); else switch (k->fn) { case 0: case 1: r = m->invoke(1).to<int>(); break; case 2: r = m->invoke().to<int>(); break; case 3: r = m->invoke(1, 2).to<int>(); break; default: r = m->invoke(1.5).to<int>(); } }
    else if (cat == mcatProperty) { auto *m = static_cast<MetaProperty const *>(i); want += 50; r = n->type >= 0 ? ops[n->type].get(m, k->fn) : m->get().to<int>(); }
    else { want = k->fn; r = ops[n->type].make(static_cast<MetaConstructor const *>(i), k->fn); }
    c.check(r == want, "%s %s gives %ld instead of %ld", cat_name(cat), shown(k->path()).c_str(), r, want);
}
void World::query()
{
    if (c.chance(1, 12)) { finds(); return; }
    std::vector<Node *> e; for (auto &x : all) if (x->cat == mcatEnum) e.push_back(x.get());
    if (!e.empty() && c.chance(mix.query[7], 100)) { auto *n = e[c.draw(e.size())]; if (c.chance(1, 4)) attributes(n); else elements(n); return; }
    std::vector<Node *> k; for (auto &x : all) if (x->container()) k.push_back(x.get());
    query(k[c.chance(1, 4) && !running.empty() ? 0 : c.draw(k.size())]);
}
void World::query(Node *n)
{
    if (!running.empty() && c.chance(1, 3)) { n = running[c.draw(running.size())]->n; ++reentrant; }
    unsigned t = 0; unsigned wt[7]; for (int i = 0; i < 7; ++i) { wt[i] = mix.query[i]; if (i == 2 && n->cat != mcatClass) wt[i] = 0; t += wt[i]; }
    auto r = c.draw(t); int q = 0; for (; r >= wt[q]; ++q) r -= wt[q];
    static char const *names[] = {"lookup", "attributes", "class facts", "force", "force all", "use", "names"};
    if (q != 3 && q != 4) c.note("%*squery %s: %s", 2 * (int)running.size(), "", shown(n->path()).c_str(), names[q]);
    switch (q) { case 0: lookups(n); break; case 1: attributes(n); break; case 2: classFacts(n, false); break; case 3: force(n, false); break; case 4: force(n, true); break; case 5: use(n); break; default: resolve(n); facts(n); }
}
void World::verify(Node *n, bool deep)
{
    auto *m = as_container(resolve(n)); auto self = [n](Node *x) { return x == n; }; auto p = shown(n->path()); facts(n);
    for (int cat = 0; cat < mcatCount; ++cat) {
        size_t r; { Ask a(*this, "counting", self); a.must(n); r = count(m, cat); a.done(); } c.check(r == n->kids[cat].size(), "%s has %zu items of category %s instead of %zu", p.c_str(), r, cat_name(cat), n->kids[cat].size());
        for (size_t i = 0; i < n->kids[cat].size(); ++i) {
            auto *k = n->kids[cat][i]; MetaItem const *x, *y; { Ask a(*this, "taking by index", self); x = get(m, cat, i); } same(k, x, "by index");
            { Ask a(*this, "finding by name", self); y = get(m, cat, std::string_view(k->name)); } same(k, y, "by name"); facts(k);
        }
    }
    for (int q = 0; q < 4; ++q) attrs(*this, n, q);
    for (auto *k : n->kids[mcatEnum]) for (int q = 0; q < 4; ++q) { attrs(*this, k, q); elems(*this, k, q); }
    if (n->cat == mcatClass) classFacts(n, true);
    if (deep) for (int cat : {mcatNamespace, mcatClass}) for (size_t i = 0; i < n->kids[cat].size(); ++i) verify(n->kids[cat][i], true);
}
void World::everything()
{
    budget = std::min(budget, 3); verify(root, true); force(root, true); verify(root, true); finds();
    for (auto &x : all) if (x->container()) c.check(!x->def || x->def->foreign, "%s is still pending at the end", shown(x->path()).c_str());
}

template<class D> bool class_which(World &w, D &d, Node *n, std::string const &name, int i, bool byType)
{
    switch (i) {
    case 0: return class_in<0>(w, d, n, name, byType); case 1: return class_in<1>(w, d, n, name, byType); case 2: return class_in<2>(w, d, n, name, byType); case 3: return class_in<3>(w, d, n, name, byType);
    case 4: return class_in<4>(w, d, n, name, byType); case 5: return class_in<5>(w, d, n, name, byType); case 6: return class_in<6>(w, d, n, name, byType); case 7: return class_in<7>(w, d, n, name, byType);
    case 8: return class_in<8>(w, d, n, name, byType); case 9: return class_in<9>(w, d, n, name, byType); case 10: return class_in<10>(w, d, n, name, byType); default: return class_in<11>(w, d, n, name, byType);
    }
}
// Asks for the class before it is declared, and again afterwards.
template<class D> bool class_any(World &w, D &d, Node *n, std::string const &name, int i, bool byType)
{
    bool ask = w.c.chance(1, 2); if (ask) { Ask a(w, "finding a class", never); w.find(i); }
    bool r = class_which(w, d, n, name, i, byType);
    if (ask) { Ask a(w, "finding a class", never); w.find(i); }
    return r;
}
template void ns_body<1, N0>(World &, N0, Node *);

void history(pbt::Ctx &c, Mix const &mix, int budget, std::function<bool(World &)> nontrivial)
{
    World w(c, mix); w.budget = budget;
    do { auto g = global_define(); ns_body<0>(w, static_cast<N0>(g), w.root); w.abandon = false; for (uint64_t k = c.draw(3); k--; ) w.query(); c.note("----"); } while (w.budget > 0 && c.more(20));
    w.everything();
    if (w.ran) c.label("deferred definitions executed"); if (w.nested) c.label("deferred within deferred"); if (w.reentrant) c.label("queries from within a deferred definition"); if (w.refused) c.label("refusals"); if (w.repeats) c.label("repeated declarations"); if (w.overwrites) c.label("overwritten values");
    if (nontrivial(w)) c.nontrivial();
}
} // namespace reg
