// C01: variants inside variants; assignments between a value and its own parts.
#include <engine/pbt.hpp>
#include <rtti/variant.h>
#include <rtti/metaerror.h>
#include <map>
#include <memory>
#include <algorithm>
using rtti::variant;
namespace {
struct Cell { variant v; bool operator==(Cell const &o) const { return v == o.v; } };                     // on the heap
struct Ptr {                                                                                                // in place, copies deeply
    std::unique_ptr<variant> p;
    explicit Ptr(variant v): p(new variant(std::move(v))) {}
    Ptr(Ptr const &o): p(o.p ? new variant(*o.p) : nullptr) {}
    Ptr(Ptr &&o) noexcept: p(std::move(o.p)) {}
    Ptr &operator=(Ptr const &) = delete;
    bool operator==(Ptr const &o) const { return !p || !o.p ? !p && !o.p : *p == *o.p; }
};
using List = std::vector<variant>; using Map = std::map<std::string, variant>; using Arr = Cell[2];
enum T { EMPTY, LONG, STR, LIST, MAP, CELL, PTR, ARR };
char const *const names[] = {"empty", "long", "string", "list", "map", "cell", "pointer", "array"};
struct M { T t = EMPTY; long n = 0; std::vector<M> kids; std::vector<std::string> keys; size_t size() const { size_t r = 1; for (auto &k : kids) r += k.size(); return r; } };
bool eq(M const &a, M const &b) { if (a.t != b.t || a.n != b.n || a.keys != b.keys || a.kids.size() != b.kids.size()) return false; for (size_t i = 0; i < a.kids.size(); ++i) if (!eq(a.kids[i], b.kids[i])) return false; return true; }
std::string text(long n) { return std::string((size_t)(n % 30), 's') + std::to_string(n); }
// the sub-variants of a variant
variant &kid(variant &v, M const &m, size_t i)
{
    switch (m.t) { case LIST: return v.ref<List>()[i]; case MAP: return v.ref<Map>().at(m.keys[i]); case CELL: return v.ref<Cell>().v; case PTR: return *v.ref<Ptr>().p; default: return v.ref<Arr>()[i].v; }
}
void verify(pbt::Ctx &c, variant const &v, M const &m, int step)
{
    bool is[] = {v.empty(), v.is<long>(), v.is<std::string>(), v.is<List>(), v.is<Map>(), v.is<Cell>(), v.is<Ptr>(), v.is<Arr>()};
    for (int t = 0; t < 8; ++t) c.check(is[t] == (m.t == t), "step %d: a variant which should be %s %s %s", step, names[m.t], is[t] ? "is" : "is not", names[t]);
    switch (m.t) {
    case EMPTY: break;
    case LONG: c.check(v.ref<long>() == m.n, "step %d: %ld instead of %ld", step, v.ref<long>(), m.n); break;
    case STR: c.check(v.ref<std::string>() == text(m.n), "step %d: another string", step); break;
    case LIST: { auto &l = v.ref<List>(); c.check(l.size() == m.kids.size(), "step %d: %zu list items instead of %zu", step, l.size(), m.kids.size()); for (size_t i = 0; i < l.size(); ++i) verify(c, l[i], m.kids[i], step); break; }
    case MAP: { auto &l = v.ref<Map>(); c.check(l.size() == m.kids.size(), "step %d: %zu map items instead of %zu", step, l.size(), m.kids.size()); for (size_t i = 0; i < m.keys.size(); ++i) { auto f = l.find(m.keys[i]); c.check(f != l.end(), "step %d: a map item is missing", step); verify(c, f->second, m.kids[i], step); } break; }
    case CELL: verify(c, v.ref<Cell>().v, m.kids[0], step); break;
    case PTR: c.check(v.ref<Ptr>().p != nullptr, "step %d: the pointer's value is gone", step); verify(c, *v.ref<Ptr>().p, m.kids[0], step); break;
    case ARR: for (size_t i = 0; i < 2; ++i) verify(c, v.ref<Arr>()[i].v, m.kids[i], step); break;
    }
}
using Path = std::vector<size_t>;
LAW(trees, pbt::LEAKS, 40000, 1500000, "variants which hold lists, maps, structures, owning pointers and arrays of variants, up to 200 in one tree; up to 30 copies, moves, swaps, clears, replacements, insertions and erasures between any two places of two trees, also from a part to its whole, from the whole to a part, and from a variant's own content by copy and by move; the trees compared with a model after every step, and subtrees with each other by ==; non-trivial: an assignment between a variant and a part of itself")
{
    variant v[2]; M m[2]; int step = 0, related = 0;
    struct Place { int tree; Path path; variant *v; M *m; };
    auto at = [&](int tree, Path const &p) { Place r{tree, p, &v[tree], &m[tree]}; for (auto i : p) { auto *nv = &kid(*r.v, *r.m, i); auto *nm = &r.m->kids[i]; r.v = nv; r.m = nm; } return r; };
    auto pick = [&] { int t = (int)c.draw(2); Path p; auto *n = &m[t]; while (!n->kids.empty() && c.chance(2, 3)) { size_t i = c.draw(n->kids.size()); p.push_back(i); n = &n->kids[i]; } return at(t, p); };
    auto shown = [](Place const &p) { std::string s = p.tree ? "b" : "a"; for (auto i : p.path) s += "[" + std::to_string(i) + "]"; return s; };
    auto below = [](Place const &a, Place const &b) { return a.tree == b.tree && a.path.size() > b.path.size() && std::equal(b.path.begin(), b.path.end(), a.path.begin()); };   // a lies in b
    auto fresh = [&](M &model) -> variant {
        model = {}; int t = (int)c.draw(8); model.t = (T)t; long n = (long)c.draw(50);
        auto sub = [&] { M k; k.t = c.draw(2) ? STR : LONG; k.n = (long)c.draw(50); model.kids.push_back(k); return k.t == STR ? variant{text(k.n)} : variant{k.n}; };
        switch (t) {
        case EMPTY: return {}; case LONG: model.n = n; return variant{n}; case STR: model.n = n; return variant{text(n)};
        case LIST: { List l; for (int i = 0; i < n % 4; ++i) l.push_back(sub()); return c.draw(2) ? variant{l} : variant{std::move(l)}; }
        case MAP: { Map l; for (int i = 0; i < n % 4; ++i) { auto k = text(i); l[k] = sub(); model.keys.push_back(k); } return c.draw(2) ? variant{l} : variant{std::move(l)}; }
        case CELL: { Cell x{sub()}; return c.draw(2) ? variant{x} : variant{std::move(x)}; }
        case PTR: { Ptr x{sub()}; return c.draw(2) ? variant{x} : variant{std::move(x)}; }
        default: { variant a = sub(), b = sub(); Cell x[2] = {{std::move(a)}, {std::move(b)}}; return c.draw(2) ? variant{x} : variant{std::move(x)}; }
        }
    };
    // x = the content of y, by copy or by move
    auto content = [&](Place const &x, Place const &y, bool move) {
        switch (y.m->t) {
#define CONTENT(E, T) case E: { auto &r = y.v->ref<T>(); if (move) *x.v = std::move(r); else *x.v = r; break; }
        CONTENT(LONG, long) CONTENT(STR, std::string) CONTENT(LIST, List) CONTENT(MAP, Map) CONTENT(CELL, Cell) CONTENT(PTR, Ptr) CONTENT(ARR, Arr)
        default: return false;
        }
        return true;
    };
    auto own = [&](Place const &x, bool soft) {
        switch (x.m->t) {
#define OWN(E, T) case E: if (soft) c.check(x.v->tryConvert<T>(), "step %d: refused", step); else x.v->convert<T>(); break;
        OWN(LONG, long) OWN(STR, std::string) OWN(LIST, List) OWN(MAP, Map) OWN(CELL, Cell) OWN(PTR, Ptr) default: break;
        }
    };
    while (step < 30 && c.more(18)) {
        ++step;
        if (m[0].size() + m[1].size() > 200) { for (int i = 0; i < 2; ++i) { v[i].clear(); m[i] = {}; } c.note("%d: clear both", step); }
        auto x = pick(), y = pick(); bool same = x.v == y.v, up = below(y, x), down = below(x, y);
        auto rel = up ? " (its part)" : down ? " (the whole)" : same ? " (itself)" : "";
        switch (c.weighted({6, 8, 6, 3, 2, 6, 4, 3, 3, 3, 2})) {
        case 0: { M k; auto f = fresh(k); c.note("%d: %s = fresh %s", step, shown(x).c_str(), names[k.t]); *x.v = std::move(f); *x.m = k; break; }
        case 1: { c.note("%d: %s = %s%s", step, shown(x).c_str(), shown(y).c_str(), rel); M k = *y.m; *x.v = *y.v; *x.m = k; related += up || down; break; }
        case 2: if (down) break; { c.note("%d: %s = move(%s)%s", step, shown(x).c_str(), shown(y).c_str(), rel); if (same) { *x.v = std::move(*y.v); break; } M k = *y.m; *y.m = {}; *x.v = std::move(*y.v); *x.m = k; related += up; break; }
        case 3: if (up || down) break; c.note("%d: swap(%s, %s)", step, shown(x).c_str(), shown(y).c_str()); swap(*x.v, *y.v); if (!same) { M k = *x.m; *x.m = *y.m; *y.m = k; } break;
        case 4: c.note("%d: %s.clear()", step, shown(x).c_str()); x.v->clear(); *x.m = {}; break;
        case 5: { c.note("%d: %s = content of %s%s", step, shown(x).c_str(), shown(y).c_str(), rel); M k = *y.m; if (content(x, y, false)) { *x.m = k; related += up || down || same; } break; }
        case 6: if (down) break; { c.note("%d: %s = moved content of %s%s", step, shown(x).c_str(), shown(y).c_str(), rel); M k = *y.m; bool whole = same || up;
            if (content(x, y, true)) { *x.m = k; related += whole; if (!whole) { y.v->clear(); *y.m = {}; } } break; }
        case 7: case 8: if (x.m->t == LIST && (x.m->kids.size() < 12)) {
            auto &l = x.v->ref<List>(); size_t i = c.draw(l.size() + 1); c.note("%d: insert %s into %s at %zu%s", step, shown(y).c_str(), shown(x).c_str(), i, rel); M k = *y.m; if (same || down) { variant t(*y.v); l.insert(l.begin() + (long)i, std::move(t)); ++related; } else l.insert(l.begin() + (long)i, *y.v); x.m->kids.insert(x.m->kids.begin() + (long)i, k);
          } else if (x.m->t == MAP) {
            auto key = text((long)c.draw(6)); M k = *y.m; c.note("%d: %s[%s] = %s%s", step, shown(x).c_str(), key.c_str(), shown(y).c_str(), rel); variant t(*y.v); x.v->ref<Map>()[key] = std::move(t); auto f = std::lower_bound(x.m->keys.begin(), x.m->keys.end(), key); auto n = f - x.m->keys.begin(); if (f == x.m->keys.end() || *f != key) { x.m->keys.insert(f, key); x.m->kids.insert(x.m->kids.begin() + n, k); } else x.m->kids[(size_t)n] = k;
          } break;
        case 9: if (x.m->t == LIST && !x.m->kids.empty()) { auto &l = x.v->ref<List>(); size_t i = c.draw(l.size()); c.note("%d: erase %zu from %s", step, i, shown(x).c_str()); l.erase(l.begin() + (long)i); x.m->kids.erase(x.m->kids.begin() + (long)i); } break;
        default: { bool soft = c.draw(2); c.note("%d: %s converted to its own type", step, shown(x).c_str()); own(x, soft); break; }
        }
        for (int i = 0; i < 2; ++i) verify(c, v[i], m[i], step);
        if (c.chance(1, 4)) { auto a = pick(), b = pick(); bool e = eq(*a.m, *b.m); c.check((*a.v == *b.v) == e && (*a.v != *b.v) == !e, "step %d: %s and %s compare %s", step, shown(a).c_str(), shown(b).c_str(), e ? "unequal" : "equal"); }
        if (c.chance(1, 6)) { auto a = pick(); variant t(*a.v); verify(c, t, *a.m, step); }
    }
    if (related) c.nontrivial();
}
} // namespace
