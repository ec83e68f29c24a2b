// C22: type lists, callable traits, signatures, names and traits over generated programs (tools/gen_c22.py).
#include <pbt.hpp>
#include <c22_show.hpp>
#include <cstring>
#include <set>
namespace c22 {
std::vector<Entry const*> &entries() { static std::vector<Entry const*> v; return v; }
std::vector<Sig const*> &sigs() { static std::vector<Sig const*> v; return v; }
}
using namespace c22;

// the compiler's spelling of types, up to the spaces around punctuation
static std::string norm(std::string const &s)
{
    std::string r; auto punct = [](char ch) { return strchr("*&()[]<>", ch) != nullptr; };
    for (size_t i = 0; i < s.size(); ++i) if (s[i] != ' ' || !((i && punct(s[i - 1])) || (i + 1 < s.size() && punct(s[i + 1])))) r += s[i];
    return r;
}
static void check_entry(pbt::Ctx &c, Entry const &e)
{
    auto r = e.get();
    bool spelled = !strcmp(e.group, "name") || !strcmp(e.group, "signature");
    c.check(spelled ? norm(r) == norm(e.expected) : r == e.expected, "%s is %s, expected %s", e.what, r.c_str(), e.expected);
}
LAW(sweep, pbt::PLAIN, 1, 1, "every generated entry once; non-trivial: always")
{
    for (auto e : entries()) check_entry(c, *e);
    c.nontrivial(); c.note("%zu entries", entries().size());
}
LAW(entry, pbt::PLAIN, 20000, 100000, "one of the generated entries: an operation on type lists of up to 14 elements (with repeated elements, references, arrays, pointers), a trait of one of the callables (functions, pointers, references, members of all 24 qualifications, functors, lambdas, std::function), the compiler's spelling of a type, a type trait of a type up to 4 levels deep, or a detection macro; compared with a model in Python; non-trivial: two or more list elements, or a compound type")
{
    auto e = entries()[c.draw(entries().size())]; c.note("%s = %s", e->what, e->expected); check_entry(c, *e);
    if (e->nontrivial) c.nontrivial(); c.label(e->group);
}
static std::string name(pbt::Ctx &c)
{
    std::string s; static char const *const ops[] = {"operator+", "operator()", "operator<", "a b", "method"};
    if (c.chance(1, 5)) return ops[c.draw(5)];
    do s += (char)c.range(33, 126); while (c.more(9));
    return s;
}
LAW(signatures, pbt::PLAIN, 20000, 400000, "signature texts of generated parameter lists under drawn names: the name and the spelled parameters exactly, the same for a type_list, equal exactly for the same name and parameters; non-trivial: two different parameter lists with parameters")
{
    auto a = sigs()[c.draw(sigs().size())], b = sigs()[c.draw(sigs().size())]; auto n = name(c), m = c.chance(3, 4) ? n : name(c);
    auto x = a->get(n), y = b->get(m); c.note("%s | %s", x.c_str(), y.c_str());
    c.check(x.size() >= n.size() && !x.compare(0, n.size(), n) && norm(x.substr(n.size())) == norm("(" + std::string(a->params) + ")"), "signature %s of %s(%s)", x.c_str(), n.c_str(), a->params);
    c.check(a->list(n) == x, "the signature of a type_list is %s, not %s", a->list(n).c_str(), x.c_str());
    bool same = n == m && !std::string(a->params).compare(b->params);
    c.check((x == y) == same || n != m, "signatures %s and %s are %s", x.c_str(), y.c_str(), x == y ? "equal" : "different");
    if (a->n && b->n && std::string(a->params) != b->params) c.nontrivial();
}
// ---------------------------------------------------------------------------------------------- iterators and functions
template<class C> static void stream_items(pbt::Ctx &c, std::basic_string<C> const &pre)
{
    std::basic_ostringstream<C> os; std::basic_string<C> want; rtti::prefix_ostream_iterator<std::basic_string<C>, C> it{os, pre}; bool first = true; size_t n = 0;
    while (c.more(5)) { std::basic_string<C> s; while (c.more(3)) s += (C)c.range('a', 'f'); if (c.chance(1, 2)) it = s; else *it++ = s; want += (first ? std::basic_string<C>{} : pre) + s; first = false; ++n; }
    c.check(os.str() == want, "%zu items are not separated as expected", n); c.check(&it.stream() == &os, "another stream"); if (n >= 2) c.nontrivial();
}
LAW(separators, pbt::PLAIN, 4000, 100000, "items written through prefix_ostream_iterator (char and wchar_t): the prefix between items only; non-trivial: two items")
{ if (c.chance(1, 2)) stream_items<char>(c, c.chance(1, 3) ? "" : ", "); else stream_items<wchar_t>(c, L" | "); }
static int twice(int x) { return 2 * x; }
static int twice_ne(int x) noexcept { return 2 * x; }
LAW(functions, pbt::PLAIN, 4000, 50000, "mpl::make_function of functions, function objects, mutable and capturing lambdas and std::function keeps type and behaviour over repeated calls; non-trivial: two calls")
{
    int k = (int)c.draw(6), add = (int)c.range(-50, 50), state = 0; std::function<int(int)> f; std::function<int(int)> src = [add](int x) { return x + add; };
    switch (k) {
    case 0: f = mpl::make_function(twice); break; case 1: f = mpl::make_function(&twice_ne); break; case 2: f = mpl::make_function([add](int x) { return x + add; }); break;
    case 3: f = mpl::make_function([n = 0, add](int x) mutable { return x + add + n++; }); break; case 4: f = mpl::make_function([&state](int x) noexcept { return x + state++; }); break; default: f = mpl::make_function(src); break;
    }
    static_assert(std::is_same_v<decltype(mpl::make_function(twice)), std::function<int(int)>>); int n = 0;
    do { int x = (int)c.range(-1000, 1000), r = f(x), w = k < 2 ? 2 * x : k == 3 ? x + add + n : k == 4 ? x + n : x + add; c.check(r == w, "call %d of form %d with %d gives %d, not %d", n, k, x, r, w); ++n; } while (c.more(4));
    if (n > 1) c.nontrivial();
}
