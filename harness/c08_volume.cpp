// C08: hundreds of pairs of types with converters.
#include <pbt.hpp>
#include <rtti/metadefine.h>
#include <rtti/variant.h>
#include <rtti/metaerror.h>
#include <array>
#include <map>
#include <string>
#include <vector>
using rtti::MetaType; using rtti::variant;
namespace c08many { template<int I> struct Node { int v; std::string pad; explicit Node(int x = 0): v(x), pad(I % 3 * 20, 'p') {} }; }
namespace {
using c08many::Node;
constexpr int K = 18, PAIRS = K * K;
int mix(int v, int p) { return (v * 31 + p * 17) % 1000; }
struct Ops { bool (*reg)(int p, bool fail); void (*unreg)(); bool (*has)(); int (*to)(variant const &); bool (*can)(variant const &); int (*conv)(variant &); };
template<int F, int T> struct Pair {
    static bool reg(int p, bool fail) { return MetaType::registerConverter<Node<F>, Node<T>>([p, fail](Node<F> const &x, bool &ok) { ok = !fail; return Node<T>(mix(x.v, p)); }); }
    static void unreg() { MetaType::unregisterConverter<Node<F>, Node<T>>(); }
    static bool has() { return MetaType::hasConverter<Node<F>, Node<T>>(); }
    static int to(variant const &x) { try { return x.to<Node<T>>().v; } catch (rtti::bad_variant_convert const &) { return -1; } }
    static bool can(variant const &x) { return x.canConvert<Node<T>>(); }
    static int conv(variant &x) { try { x.convert<Node<T>>(); } catch (rtti::bad_variant_convert const &) { return -1; } return x.template is<Node<T>>() ? x.template ref<Node<T>>().v : -2; }
};
template<int I> constexpr Ops ops() { using P = Pair<I / K, I % K>; return {P::reg, P::unreg, P::has, P::to, P::can, P::conv}; }
template<size_t... I> constexpr auto all(std::index_sequence<I...>) { return std::array<Ops, sizeof...(I)>{ops<(int)I>()...}; }
auto const table = all(std::make_index_sequence<PAIRS>{});
template<size_t... I> constexpr auto makers(std::index_sequence<I...>) { return std::array<variant (*)(int), sizeof...(I)>{+[](int v) { return variant(Node<(int)I>(v)); }...}; }
auto const make = makers(std::make_index_sequence<K>{});
struct Model { int payload; bool fails; };
struct World {
    pbt::Ctx &c; std::map<int, Model> m; size_t removed = 0;
    void reg(int i, int p, bool fail) { if (i / K == i % K) return; bool fresh = !m.count(i); c.check(table[(size_t)i].reg(p, fail) == fresh, "registering pair %d->%d reports %d", i / K, i % K, !fresh); if (fresh) m[i] = {p, fail}; }
    void unreg(int i) { if (i / K == i % K) return; table[(size_t)i].unreg(); removed += m.erase(i); }
    void look(int i, int v)
    {
        int f = i / K, t = i % K; auto x = make[(size_t)f](v); auto it = m.find(i); auto &o = table[(size_t)i]; bool self = f == t;
        int want = self ? v : it == m.end() || it->second.fails ? -1 : mix(v, it->second.payload);
        if (!self) c.check(o.has() == (it != m.end()), "%d->%d: hasConverter says %d among %zu converters", f, t, o.has(), m.size());
        c.check(o.can(x) == (self || it != m.end()), "%d->%d: can_convert says %d", f, t, o.can(x));
        int got = o.to(x); c.check(got == want, "%d->%d of %d gives %d instead of %d among %zu converters", f, t, v, got, want, m.size());
        got = o.conv(x); c.check(got == want, "%d->%d of %d converts to %d instead of %d in place", f, t, v, got, want);
    }
};
LAW(volume, pbt::ISOLATED, 900, 15000, "fresh process: converters between up to 306 pairs of 18 classes, registered, repeated, removed and registered anew in blocks; every conversion follows the first registration since the last removal of exactly its pair; non-trivial: more than 80 converters and a removal")
{
    World w{c, {}}; size_t most = 0;
    do {
        int from = (int)c.draw(PAIRS), step = 1 + (int)c.draw(c.chance(1, 2) ? 3 : 60), n = 1 + (int)c.draw(c.chance(1, 3) ? PAIRS : 20);
        switch (c.weighted({5, 2, 3})) {
        case 0: { int p = (int)c.draw(50); int f = c.chance(1, 4) ? 1 + (int)c.draw(5) : 0; c.note("register %d from %d, every %d", n, from, step); for (int k = 0; k < n; ++k) w.reg((from + k * step) % PAIRS, p + k, f && k % f == 0); break; }
        case 1: { n = 1 + n / 2; c.note("remove %d from %d, every %d", n, from, step); for (int k = 0; k < n; ++k) w.unreg((from + k * step) % PAIRS); break; }
        default: for (int k = 0; k < n; ++k) w.look((from + k * step) % PAIRS, k); break;
        }
        most = std::max(most, w.m.size());
    } while (c.more(8));
    for (int i = 0; i < PAIRS; ++i) w.look(i, i % 90);
    c.note("at most %zu converters, %zu removed", most, w.removed);
    if (most > 80 && w.removed) c.nontrivial();
}
} // namespace
