// C17: look-up in deep and wide hierarchies with many items.
#include <common/hier_large.hpp>
#include <map>
using namespace large;
namespace {
constexpr int NF = 200; int cells[NF];
template<int I> int fn(int x) { return x * 1000 + I; }
template<size_t... I> constexpr auto fns(std::index_sequence<I...>) { return std::array<int (*)(int), sizeof...(I)>{&fn<(int)I>...}; }
auto const functions = fns(std::make_index_sequence<NF>{});
struct Items { std::map<std::string, int> m, p; };
LAW(large_hierarchies, pbt::ISOLATED, 400, 8000, "fresh process: a chain of 24 classes and a class with 24 bases, some relations left out, up to 120 methods and properties with colliding names on them, declared before, between and after the bases; look-ups by signature, bare name and name on every class against the reference, and what is found is used; non-trivial: more than 30 inherited items found")
{
    Model m(c); std::vector<Items> own(TOTAL); int next = 0, inherited = 0; auto const &o = ops(); for (int i = 0; i < NF; ++i) cells[i] = i;
    auto name = [&] { static char const *const p[] = {"f", "g", "value", "f1", "ff"}; return c.chance(2, 3) ? std::string(p[c.draw(5)]) : "item" + std::to_string(c.draw(30)); };
    auto declare = [&](int k) {
        if (next >= NF) return; int i = c.chance(1, 3) ? c.chance(1, 2) ? 0 : DEPTH + (int)c.draw(WIDTH) : k; if (!m.reg[(size_t)i]) return; auto n = name();
        if (c.chance(1, 2)) { o[(size_t)i].method(o[(size_t)i].name, n, functions[(size_t)next]); own[(size_t)i].m.emplace(n, next); } else { o[(size_t)i].property(o[(size_t)i].name, n, &cells[next]); own[(size_t)i].p.emplace(n, next); }
        ++next;
    };
    m.build((int)c.draw(2)); do declare((int)c.draw(TOTAL)); while (c.more(40));
    std::function<int(int, std::string const &, bool)> find = [&](int k, std::string const &n, bool meth) -> int {
        auto &x = meth ? own[(size_t)k].m : own[(size_t)k].p; if (auto it = x.find(n); it != x.end()) return it->second;
        for (int b : m.bases[(size_t)k]) if (int r = find(b, n, meth); r >= 0) return r; return -1; };
    auto look = [&](int i, std::string const &n) {
        auto *k = m.cls(i); if (!k) return;
        for (int form = 0; form < 3; ++form) {
            bool meth = form < 2; int want = find(i, n, meth), got = -1;
            if (meth) { auto *x = k->getMethod(form ? n + "(int)" : n); if (x) got = x->invoke(2).to<int>() - 2000; } else { auto *x = k->getProperty(n); if (x) got = x->get().to<int>(); }
            c.check(got == want, "%s %s of %s is number %d instead of %d", meth ? "method" : "property", n.c_str(), o[(size_t)i].name.c_str(), got, want);
            auto &x = meth ? own[(size_t)i].m : own[(size_t)i].p; inherited += want >= 0 && !x.count(n);
        }
    };
    do { if (c.chance(1, 8)) declare((int)c.draw(TOTAL)); look(c.chance(1, 3) ? WIDE : (int)c.draw(TOTAL), name()); } while (c.more(30));
    for (int i = 0; i < TOTAL; ++i) for (auto n : {"f", "g", "value", "item0", "item7", "none"}) look(i, n);
    c.note("%d items, %d inherited", next, inherited); if (inherited > 30) c.nontrivial();
}
} // namespace
