// C19: dictionaries of many names.
#include <common/volume.hpp>
#include <unordered_map>
using namespace vol;
namespace {
struct Holder { int x = 0; };
enum class VE2 { one = 1 };
struct Dict {
    std::vector<std::pair<std::string, long>> items; std::unordered_map<std::string, size_t> index; std::vector<std::pair<variant const *, std::string const *>> kept;
    void set(std::string const &n, long v) { if (n.empty()) return; auto r = index.emplace(n, items.size()); if (r.second) items.emplace_back(n, v); else items[r.first->second].second = v; }
};
bool is(variant const &v, long x) { return x % 3 == 0 ? v.is<long>() && v.ref<long>() == x : x % 3 == 1 ? v.is<std::string>() && v.ref<std::string>() == std::to_string(x) : v.is<double>() && v.ref<double>() == (double)x; }
variant make(long x) { return x % 3 == 0 ? variant{x} : x % 3 == 1 ? variant{std::to_string(x)} : variant{(double)x}; }
template<class Cnt, class Get, class Pos, class Name, class Each> void verify(pbt::Ctx &c, Dict &d, Cnt cnt, Get get, Pos pos, Name name, Each each)
{
    c.check(cnt() == d.items.size(), "%zu entries instead of %zu", cnt(), d.items.size());
    for (size_t i = 0; i < d.items.size(); ++i) {
        c.check(name(i) == d.items[i].first && is(pos(i), d.items[i].second), "entry %zu of %zu is %s instead of %s, or has another value", i, d.items.size(), shown(name(i)).c_str(), shown(d.items[i].first).c_str());
        c.check(&get(d.items[i].first) == &pos(i), "%s: another entry by name than by position %zu", shown(d.items[i].first).c_str(), i);
        if (i % 7 == 0) for (auto n : {d.items[i].first + "0", d.items[i].first.substr(1), d.items[i].first + std::string(1, '\0')}) if (!d.index.count(n)) c.check(get(n).empty(), "%s is found", shown(n).c_str());
    }
    c.check(pos(d.items.size()).empty() && name(d.items.size()).empty() && pos((size_t)-1).empty(), "an entry behind the last");
    // What was taken earlier stays valid and shows the present value.
    for (size_t i = 0; i < d.kept.size(); ++i) if (d.kept[i].first) {
        c.check(d.kept[i].first == &pos(i), "entry %zu (%s) has moved since it was taken", i, shown(d.items[i].first).c_str());
        c.check(is(*d.kept[i].first, d.items[i].second) && d.kept[i].second == &name(i) && *d.kept[i].second == d.items[i].first, "the earlier taken entry %zu (%s) shows another value or name", i, shown(d.items[i].first).c_str());
    }
    d.kept.resize(d.items.size());
    for (size_t i = 0; i < d.items.size(); ++i) if (!d.kept[i].first) d.kept[i] = {&pos(i), &name(i)};
    size_t k = 0, stop = c.draw(d.items.size() + 2); bool ok = true;
    each([&](std::string_view n, variant const &v) { ok = ok && k < d.items.size() && n == d.items[k].first && is(v, d.items[k].second); return k++ < stop; });
    c.check(ok && k == std::min(stop + 1, d.items.size()), "the enumeration visits %zu of %zu entries, stopped at %zu, or other entries", k, d.items.size(), stop);
}
LAW(volume, pbt::ISOLATED, 500, 10000, "attributes of a namespace, a class and an enum and elements of enums in blocks of up to 600, whose names share prefixes, differ in one place, or are long, partly stored again; values of three types; compared by name, position, enumeration in between and at the end; non-trivial: more than 64 entries")
{
    Dict dict[4]; size_t total = 0;
    { auto g = global_define(); auto n = g._namespace("holder"); n = n._class<Holder>("H")._end(); n = n._enum<VE2>("E"); }
    MetaContainer const *m = MetaNamespace::global()->getNamespace("holder"); c.check(m, "not declared");
    auto *cl = m->getClass("H"); auto *en = m->getEnum("E"); c.check(cl && en, "not declared");
    auto check = [&](int which) {
        if (which == 3) verify(c, dict[3], [&] { return en->elementCount(); }, [&](std::string const &s) -> variant const & { return en->element(std::string_view(s)); }, [&](size_t i) -> variant const & { return en->element(i); }, [&](size_t i) -> std::string const & { return en->elementName(i); }, [&](auto f) { en->for_each_element(f); });
        else { auto *i = which == 0 ? static_cast<MetaItem const *>(m) : which == 1 ? static_cast<MetaItem const *>(cl) : static_cast<MetaItem const *>(en); verify(c, dict[which], [&] { return i->attributeCount(); }, [&](std::string const &s) -> variant const & { return i->attribute(std::string_view(s)); }, [&](size_t k) -> variant const & { return i->attribute(k); }, [&](size_t k) -> std::string const & { return i->attributeName(k); }, [&](auto f) { i->for_each_attribute(f); }); i->for_each_attribute({}); }
    };
    do {
        int which = (int)c.draw(4), style = (int)c.draw(6); size_t from = c.draw(c.chance(1, 2) ? 10 : 500), k = 1 + c.draw(c.chance(1, 3) ? 600 : 30); long base = (long)c.draw(1000);
        if (c.chance(1, 5)) { check(which); continue; }
        auto fill = [&](auto &x) { for (size_t i = from; i < from + k; ++i) { auto n = Names::nth(style, i); dict[which].set(n, base + (long)i); x(n, base + (long)i); ++total; } };
        auto g = global_define(); auto n = g._namespace("holder");
        switch (which) {
        case 0: { auto f = [&](std::string const &s, long v) { n = n._attribute(s, make(v)); }; fill(f); break; }
        case 1: { auto h = n._class<Holder>("H"); auto f = [&](std::string const &s, long v) { h = h._attribute(s, make(v)); }; fill(f); break; }
        case 2: { auto e = n._enum<VE2>("E"); auto f = [&](std::string const &s, long v) { e = e._attribute(s, make(v)); }; fill(f); break; }
        default: { auto e = n._enum<VE2>("E"); auto f = [&](std::string const &s, long v) { e = e._element(s, make(v)); }; fill(f); break; }
        }
    } while (total < 3000 && c.more(8));
    for (int i = 0; i < 4; ++i) check(i);
    c.note("%zu entries", total);
    if (total > 64) c.nontrivial();
}
} // namespace
