// C06: one stable identity per C++ type from every module, found by its name.
#include <common/c06_types.hpp>
#include <pbt.hpp>
#include <atomic>
#include <thread>
#include <cstring>
using rtti::MetaType; using rtti::MetaType_ID;
extern "C" C06_Module c06_module_a();
extern "C" C06_Module c06_module_b();
namespace {
C06_TABLE
C06_Module own() { return {entries, (int)(sizeof entries / sizeof *entries), c06_make, c06_check, nullptr}; }
C06_Module const *mods() { static C06_Module const m[3] = {own(), c06_module_a(), c06_module_b()}; return m; }

// decay and size of each entry, by the compiler
MetaType_ID (*const decays[])() = {
#define C06_SHAPE_DECAYS(...) c06_id<facts::decayed<__VA_ARGS__>>, c06_id<facts::decayed<__VA_ARGS__>>, c06_id<facts::decayed<__VA_ARGS__>>, c06_id<facts::decayed<__VA_ARGS__>>, c06_id<facts::decayed<__VA_ARGS__>>, \
    c06_id<facts::decayed<__VA_ARGS__> *>, c06_id<facts::decayed<__VA_ARGS__> *>, c06_id<facts::decayed<__VA_ARGS__> *>, c06_id<facts::decayed<__VA_ARGS__> *>, c06_id<facts::decayed<__VA_ARGS__> **>, c06_id<facts::decayed<__VA_ARGS__> **>, \
    c06_id<facts::decayed<__VA_ARGS__> *>, c06_id<facts::decayed<__VA_ARGS__> *>,
    C06_BASE(C06_SHAPE_DECAYS) C06_EXTRA(C06_DECAY)};

struct Known { MetaType_ID id; std::string name; size_t size; rtti::TypeFlags flags; MetaType_ID decay; unsigned arity; char const *ptr; };

void remember(pbt::Ctx &c, std::vector<Known> &k, std::vector<bool> &have, int i, MetaType_ID id, char const *who)
{
    MetaType m{id};
    if (!have[(size_t)i]) {
        c.check(id.valid() && m.valid() && m.typeId() == id, "%s: invalid id for type %d", who, i);
        have[(size_t)i] = true; k[(size_t)i] = Known{id, std::string(m.typeName()), m.typeSize(), m.typeFlags(), m.decayId(), m.pointerArity(), m.typeName().data()};
        for (size_t j = 0; j < k.size(); ++j)
            if (have[j] && (int)j != i) c.check(k[j].id != id, "types %s and #%d got one id", k[j].name.c_str(), i);
        return;
    }
    auto const &o = k[(size_t)i];
    c.check(o.id == id, "%s: type %s has another id than before", who, o.name.c_str());
}
void again(pbt::Ctx &c, Known const &o)
{
    MetaType m{o.id};
    c.check(m.valid() && m.typeId() == o.id && m.typeName() == o.name && m.typeSize() == o.size && m.typeFlags() == o.flags && m.decayId() == o.decay && m.pointerArity() == o.arity, "the descriptor of %s changed", o.name.c_str());
    auto n = std::string(o.name); MetaType byName{std::string_view{n}};
    c.check(byName.valid() && byName.typeId() == o.id, "%s isn't found by its name", o.name.c_str());
}
int const N = sizeof entries / sizeof *entries;

LAW(history, pbt::ISOLATED, 9000, 200000, "fresh process: up to 80 requests for ids of ~680 types from three modules (one executable, two shared objects with hidden symbols), lookups by name, by mangled-up names and by id, interleaved; every type keeps one id, distinct types have distinct ids, descriptors never change; non-trivial: one type requested from two modules")
{
    std::vector<Known> k((size_t)N); std::vector<bool> have((size_t)N, false);
    std::vector<int> used; std::vector<int> seenBy((size_t)N, 0);
    size_t focus = 2 + c.draw(12); std::vector<int> pool; for (size_t i = 0; i < focus; ++i) pool.push_back((int)c.draw((uint64_t)N));
    if (c.draw(3) == 0) { int b = (int)c.draw((uint64_t)N - 20); for (int i = 0; i < 20; ++i) pool.push_back(b + i); }
    int steps = 0;
    while (steps < 80 && c.more(30)) {
        ++steps;
        switch (c.weighted({12, 3, 2, 2, 2, 1})) {
        case 0: { int i = c.pick_of(pool), m = (int)c.draw(3); c.note("module %d asks for type %d", m, i);
            remember(c, k, have, i, mods()[m].entries[i].id(), "request"); used.push_back(i); seenBy[(size_t)i] |= 1 << m;
            if (__builtin_popcount((unsigned)seenBy[(size_t)i]) >= 2) c.nontrivial(); break; }
        case 1: if (!used.empty()) { int i = c.pick_of(used); c.note("look %s up again", k[(size_t)i].name.c_str()); again(c, k[(size_t)i]); } break;
        case 2: if (!used.empty()) {    // names that aren't names
            auto n = k[(size_t)c.pick_of(used)].name; auto how = c.draw(7);
            if (how == 0) n += " "; else if (how == 1) n = " " + n; else if (how == 2) n.pop_back(); else if (how == 3) n.erase(0, 1); else if (how == 4) n += "!"; else if (how == 5) n[(size_t)c.draw(n.size())] = '?'; else n += std::string(1, '\0');
            MetaType m{std::string_view{n}}; c.note("look up '%s'", n.c_str());
            if (m.valid()) c.check(m.typeName() == n, "'%s' finds the type %s", n.c_str(), std::string(m.typeName()).c_str()); } break;
        case 3: { int i = c.pick_of(pool); if (have[(size_t)i]) { auto d = decays[i](); c.note("decay of %s", k[(size_t)i].name.c_str());
            c.check(k[(size_t)i].decay == d, "%s decays to %s", k[(size_t)i].name.c_str(), std::string(MetaType{k[(size_t)i].decay}.typeName()).c_str()); } break; }
        case 4: { int kind = (int)c.draw(6), v = (int)c.draw(50), m = (int)c.draw(3), n = (int)c.draw(3);
            c.note("variant (kind %d, #%d) made in module %d, read in module %d", kind, v, m, n);
            auto x = mods()[m].make(kind, v, false); auto y = x;
            c.check(mods()[n].check(kind, x, v) && mods()[n].check(kind, y, v), "a variant made in module %d is misread in module %d (kind %d)", m, n, kind);
            auto z = mods()[n].make(kind, v, false); if (kind != 2 && kind != 3 && kind != 4) c.check(x == z, "equal variants of two modules differ");
            using std::swap; swap(x, z); c.check(mods()[m].check(kind, z, v) && mods()[m].check(kind, x, v), "swapped variants are misread"); break; }
        case 5: c.check(!MetaType{MetaType_ID{}}.valid() && !MetaType{std::string_view{}}.valid() && !MetaType{std::string_view{"no such type"}}.valid(), "an unknown name or invalid id gives a valid type"); break;
        }
    }
    for (int i : used) again(c, k[(size_t)i]);
}
LAW(threads, pbt::ISOLATED, 4000, 60000, "fresh process: 2..6 threads released together request generated sequences of ids through generated modules and look the names up; all threads agree; non-trivial: at least two threads request one type")
{
    size_t nt = 2 + c.draw(5); std::vector<std::vector<std::pair<int, int>>> plan(nt);
    std::vector<int> pool; size_t np = 1 + c.draw(10); for (size_t i = 0; i < np; ++i) pool.push_back((int)c.draw((uint64_t)N));
    std::vector<int> count((size_t)N, 0);
    for (auto &p : plan) { std::vector<bool> mine((size_t)N, false); size_t n = 1 + c.draw(12); for (size_t i = 0; i < n; ++i) { int t = c.pick_of(pool); p.push_back({t, (int)c.draw(3)}); if (!mine[(size_t)t]) { mine[(size_t)t] = true; if (++count[(size_t)t] == 2) c.nontrivial(); } } }
    std::vector<std::vector<MetaType_ID>> got(nt); std::vector<char const *> err(nt, nullptr);
    std::atomic<size_t> ready{0}; std::atomic<bool> go{false}; std::vector<std::thread> th;
    for (size_t t = 0; t < nt; ++t) th.emplace_back([&, t] {
        ++ready; while (!go.load(std::memory_order_acquire)) {}
        for (auto [i, m] : plan[t]) {
            auto id = mods()[m].entries[i].id(); got[t].push_back(id);
            MetaType mt{id}; if (!mt.valid()) { err[t] = "invalid type"; continue; }
            MetaType byName{mt.typeName()}; if (byName.typeId() != id) err[t] = "name lookup disagrees";
            if (MetaType{mt.decayId()}.decayId() != mt.decayId()) err[t] = "the decayed type is incomplete";
        }
    });
    mods(); while (ready < nt) std::this_thread::yield();
    go.store(true, std::memory_order_release); for (auto &x : th) x.join();
    std::vector<Known> k((size_t)N); std::vector<bool> have((size_t)N, false);
    for (size_t t = 0; t < nt; ++t) {
        c.check(!err[t], "thread %zu: %s", t, err[t] ? err[t] : "");
        for (size_t i = 0; i < plan[t].size(); ++i) remember(c, k, have, plan[t][i].first, got[t][i], "thread");
    }
    for (int i = 0; i < N; ++i) if (have[(size_t)i]) again(c, k[(size_t)i]);
}

// known findings: types the compiler prints alike
enum { UnnamedA }; enum { UnnamedB = 7 };
template<auto V> struct AutoT { char c[sizeof V * 3]; };
PROBE(C06_lambdas, "two different lambdas with the same parameters in one function have one type id", true)
{ auto a = [](int x) { return x; }; auto b = [](int x) { return x + 1; }; return rtti::metaTypeId<decltype(a)>() == rtti::metaTypeId<decltype(b)>(); }
PROBE(C06_unnamed_enums, "two different unnamed enumerations in one scope have one type id", true)
{ return rtti::metaTypeId<decltype(UnnamedA)>() == rtti::metaTypeId<decltype(UnnamedB)>(); }
PROBE(C06_auto_argument, "X<1> and X<1l> of template<auto> have one type id", true)
{ return rtti::metaTypeId<AutoT<1>>() == rtti::metaTypeId<AutoT<1l>>(); }
PROBE(C06_const_nullptr, "std::nullptr_t const has the type id of std::nullptr_t", true)
{ return rtti::metaTypeId<std::nullptr_t>() == rtti::metaTypeId<std::nullptr_t const>(); }
template<int> MetaType_ID local_one() { { struct Loc { int a; }; return rtti::metaTypeId<Loc>(); } }
PROBE(C06_local_classes, "two local classes of one name in different blocks of one function have one type id", true)
{ MetaType_ID a, b; { struct Loc { int a; }; a = rtti::metaTypeId<Loc>(); } { struct Loc { char c[33]; }; b = rtti::metaTypeId<Loc>(); } return a == b; }
PROBE(C06_anonymous_namespaces, "classes of one name in unnamed namespaces of two translation units have one type id", true)
{ return mods()[1].hidden() == mods()[2].hidden(); }
} // namespace
