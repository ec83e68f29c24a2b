// C06: thousands of types in one process.
#include <pbt.hpp>
#include <rtti/metatype.h>
#include <rtti/variant.h>
#include <algorithm>
#include <array>
#include <string>
#include <thread>
#include <unordered_map>
#include <unordered_set>
#include <atomic>
using rtti::MetaType; using rtti::MetaType_ID;
namespace c06many { template<int I> struct Many { char c[I % 300 + 1]; }; template<class T, int I> struct Pair { T t; int i; }; }
namespace {
using c06many::Many; using c06many::Pair;
constexpr int BASE = 600, SHAPED = 70;
struct Entry { MetaType_ID (*id)(); size_t size; };
template<class T> constexpr Entry entry() { if constexpr (std::is_reference_v<T>) return {&rtti::metaTypeId<T>, 0}; else return {&rtti::metaTypeId<T>, sizeof(T)}; }
template<size_t... I> constexpr auto bases(std::index_sequence<I...>) { return std::array<Entry, sizeof...(I)>{entry<Many<(int)I>>()...}; }
template<size_t... I> constexpr auto shapes(std::index_sequence<I...>)
{
    return std::array<Entry, sizeof...(I) * 6>{entry<Many<(int)I * 3> *>()..., entry<Many<(int)I * 5> const>()..., entry<Many<(int)I * 7> **>()..., entry<Many<(int)I>[I % 5 + 1]>()..., entry<Pair<Many<(int)I>, (int)I>>()..., entry<Pair<Pair<Many<(int)I>, 1>, 2>>()...};
}
auto const table0 = bases(std::make_index_sequence<BASE>{});
auto const table1 = shapes(std::make_index_sequence<SHAPED>{});
constexpr size_t N = BASE + SHAPED * 6;
Entry const &at(size_t i) { return i < BASE ? table0[i] : table1[i - BASE]; }
struct Known { MetaType_ID id; std::string name; size_t size; rtti::TypeFlags flags; MetaType_ID decay; unsigned arity; };
struct World {
    pbt::Ctx &c; std::unordered_map<size_t, Known> known; std::vector<size_t> order; std::unordered_map<std::string, size_t> names; std::unordered_map<MetaType_ID::type, size_t> ids;
    void request(size_t i)
    {
        auto id = at(i).id(); MetaType m{id};
        c.check(id.valid() && m.valid() && m.typeId() == id, "invalid id for type #%zu after %zu others", i, order.size());
        auto it = known.find(i);
        if (it != known.end()) { c.check(it->second.id == id, "%s has another id than before", it->second.name.c_str()); return; }
        known.emplace(i, Known{id, std::string(m.typeName()), m.typeSize(), m.typeFlags(), m.decayId(), m.pointerArity()}); order.push_back(i);
        auto &k = known[i];
        c.check(k.size == at(i).size, "%s has size %zu instead of %zu", k.name.c_str(), k.size, at(i).size);
        auto a = ids.emplace(id.value(), i); auto b = names.emplace(k.name, i);
        c.check(a.second, "types #%zu and #%zu have one id", i, a.first->second);
        c.check(b.second, "types #%zu and #%zu have one name", i, b.first->second);
    }
    void again(size_t i)
    {
        auto &k = known[i]; MetaType m{k.id};
        c.check(m.valid() && m.typeId() == k.id && m.typeName() == k.name && m.typeSize() == k.size && m.typeFlags() == k.flags && m.decayId() == k.decay && m.pointerArity() == k.arity, "the descriptor of %s changed", k.name.c_str());
        std::string n = k.name; MetaType b{std::string_view{n}}; c.check(b.valid() && b.typeId() == k.id, "%s isn't found by its name among %zu types", n.c_str(), order.size());
    }
};
LAW(volume, pbt::ISOLATED, 700, 12000, "fresh process: up to 1020 types, requested in blocks in any order, again, and from up to 4 threads; ids and names are distinct, descriptors never change, every type keeps being found by its name and the next multiples of the name aren't; non-trivial: more than 130 types")
{
    World w{c, {}, {}, {}, {}};
    do {
        switch (c.weighted({4, 3, 2, 1})) {
        case 0: { size_t from = (size_t)c.draw(N), k = 1 + (size_t)c.draw(c.chance(1, 3) ? 700 : 40), step = 1 + (size_t)c.draw(7); c.note("%zu types from #%zu, every %zu", k, from, step); for (size_t i = 0; i < k; ++i) w.request((from + i * step) % N); break; }
        case 1: { size_t k = 1 + (size_t)c.draw(60); for (size_t i = 0; i < k; ++i) w.request((size_t)c.draw(N)); break; }
        case 2: if (!w.order.empty()) { size_t from = (size_t)c.draw(w.order.size()), k = 1 + (size_t)c.draw(100); c.note("look at %zu of %zu again", k, w.order.size()); for (size_t i = 0; i < k; ++i) { auto t = w.order[(from + i) % w.order.size()]; w.again(t); w.request(t); } } break;
        default: {
            size_t nt = 2 + (size_t)c.draw(3), from = (size_t)c.draw(N), k = 1 + (size_t)c.draw(300), shift = (size_t)c.draw(50); c.note("%zu threads ask for %zu types from #%zu", nt, k, from);
            std::vector<std::vector<MetaType_ID>> got(nt, std::vector<MetaType_ID>(k)); std::vector<std::thread> th; std::atomic<size_t> ready{0}, bad{0};
            for (size_t t = 0; t < nt; ++t) th.emplace_back([&, t] { ++ready; while (ready < nt) std::this_thread::yield(); for (size_t j = 0; j < k; ++j) { size_t i = (from + (j + t * shift) % k) % N; got[t][i % k] = at(i).id(); MetaType m{got[t][i % k]}; if (!m.valid() || MetaType{m.typeName()}.typeId() != m.typeId()) ++bad; if (got[t][i % k] != at(i).id()) ++bad; } });
            for (auto &x : th) x.join(); c.check(!bad, "a thread saw an incomplete type");
            for (size_t j = 0; j < k; ++j) w.request((from + j) % N); break; }
        }
    } while (c.more(6));
    for (auto i : w.order) w.again(i);
    for (auto i : w.order) w.request(i);
    for (size_t j = 0; j < w.order.size(); j += 1 + w.order.size() / 16) { auto n = w.known[w.order[j]].name; for (auto x : {n + n, n.substr(1), n + "&", n + " const*"}) { MetaType m{std::string_view{x}}; if (m.valid()) c.check(m.typeName() == x, "'%s' finds %s", x.c_str(), std::string(m.typeName()).c_str()); } }
    c.note("%zu types", w.order.size());
    if (w.order.size() > 130) c.nontrivial();
}
} // namespace
