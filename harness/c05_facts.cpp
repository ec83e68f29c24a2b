// C05: descriptors state what the compiler says.
#include <common/facts.hpp>
#include <pbt.hpp>
#include <sstream>
#include <vector>
#include <map>
#include <memory>
#include <functional>
namespace {
struct S { int a; int f(int) const; };
enum class E1 : unsigned char { A }; enum E2 { B2 };
struct Abs { virtual void f() = 0; virtual ~Abs() = default; };
using namespace facts;
int const reg = [] {
    add_all<int>(); add_all<bool>(); add_all<char>(); add_all<unsigned long long>(); add_all<double>(); add_all<float>(); add_all<long double>(); add_all<wchar_t>();
    add_all<E1>(); add_all<E2>(); add_all<S>(); add_all<Abs>(); add_all<std::string>(); add_all<std::unique_ptr<int>>(); add_all<std::vector<int>>(); add_all<std::shared_ptr<S>>(); add_all<std::function<int(int)>>(); add_all<std::map<int, std::string>>();
    add<std::nullptr_t>(); add<std::nullptr_t &&>(); add_values<int S::*>(); add_values<int (S::*)(int) const>(); add_all<int S::*>();
    add_shapes<void>(); add_values<int (*)(int)>(); add<int (*const *)(int)>(); add<void (**)()>(); add<int (*[3])(int)>(); add_values<void (*)() noexcept>();
    return 0;
}();

struct Name { char const *n; rtti::TypeFlags f; };
using F = rtti::TypeFlags;
Name const names[] = {{"Const", F::Const}, {"Pointer", F::Pointer}, {"MemberPointer", F::MemberPointer}, {"LvalueReference", F::LvalueReference}, {"RvalueReference", F::RvalueReference}, {"Array", F::Array},
    {"Void", F::Void}, {"Integral", F::Integral}, {"FloatPoint", F::FloatPoint}, {"Enum", F::Enum}, {"Function", F::Function}, {"Union", F::Union}, {"Class", F::Class}, {"StandardLayout", F::StandardLayout},
    {"Trivial", F::Trivial}, {"Abstract", F::Abstract}, {"Polymorphic", F::Polymorphic}, {"DefaultConstructible", F::DefaultConstructible}, {"CopyConstructible", F::CopyConstructible}, {"CopyAssignable", F::CopyAssignable},
    {"MoveConstructible", F::MoveConstructible}, {"MoveAssignable", F::MoveAssignable}, {"Destructible", F::Destructible}, {"EQ_Comparable", F::EQ_Comparable}};

void judge_print(pbt::Ctx &c, std::string const &printed, rtti::TypeFlags fl, char const *who)
{
    std::multiset<std::string> got, want;
    std::string cur; for (char ch : printed + "|") if (ch == '|') { got.insert(cur); cur.clear(); } else if (ch != ' ') cur += ch;
    for (auto &n : names) if ((fl & n.f) == n.f) want.insert(n.n);
    if (want.empty()) want.insert("None");
    if (got != want) { std::string w; for (auto &s : want) w += s + "|"; c.fail("%s prints %s, its flags are %s", who, printed.c_str(), w.c_str()); }
}

LAW(descriptor, pbt::PLAIN, 400000, 8000000, "uniform types out of ~1300 (fixed ones and classes, unions and enums generated from the seed, each in 21 shapes), each asked a generated subset of ~45 facts in generated order, by typed handle, id or name; non-trivial: not a fundamental type")
{
    auto const &t = c.pick_of(all());
    auto id = t.id();
    rtti::MetaType m{id};
    c.note("%s", t.name.c_str());
    c.check(m.valid() && id.valid(), "%s: invalid", t.name.c_str());
    if (c.draw(2)) { m = rtti::MetaType{m.typeName()}; c.check(m.valid() && m.typeId() == id, "%s: not found by its name", t.name.c_str()); }
    std::vector<Ask> a; t.ask(m, a);
    for (auto const &x : a) c.check(x.got == x.want, "%s: %s is %d, the compiler says %d", t.name.c_str(), x.what, x.got, x.want);
    c.check(m.decayId() == t.decay(), "%s: decays to another type (%s)", t.name.c_str(), std::string(rtti::MetaType{m.decayId()}.typeName()).c_str());
    c.check(rtti::MetaType{m.decayId()}.decayed(), "%s: the decayed type isn't decayed", t.name.c_str());
    std::ostringstream o; o << m; auto s = o.str();
    auto b = s.find("Flags: ["), e = s.rfind(']');
    c.check(b != std::string::npos && e != std::string::npos && s.find("Name: [" + std::string(m.typeName()) + "]") != std::string::npos, "%s: printed as %s", t.name.c_str(), s.c_str());
    judge_print(c, s.substr(b + 8, e - b - 8), m.typeFlags(), t.name.c_str());
    if (t.interesting) c.nontrivial();
}
LAW(print_flags, pbt::PLAIN, 300000, 5000000, "arbitrary flag sets (uniform, single flags, few flags) are printed as exactly the names of the set flags; non-trivial: at least two flags")
{
    uint32_t v = 0; unsigned k = 0;
    switch (c.draw(3)) { case 0: v = 1u << c.draw(24); break; case 1: for (k = (unsigned)c.draw(6); k--;) v |= 1u << c.draw(24); break; default: v = (uint32_t)c.draw(1u << 24); }
    c.note("flags %x", v);
    std::ostringstream o; rtti::operator<<(o, (rtti::TypeFlags)v);
    judge_print(c, o.str(), (rtti::TypeFlags)v, "flag set");
    if (__builtin_popcount(v) >= 2) c.nontrivial();
}
LAW(invalid, pbt::PLAIN, 1000, 10000, "an invalid descriptor (default, void, unknown name) answers like void and is not decayed; non-trivial: made from a name")
{
    auto k = c.draw(4);
    std::string n; for (size_t i = 0; i < 6; ++i) n += (char)('a' + c.draw(26)); n += "?";
    rtti::MetaType m = k == 0 ? rtti::MetaType{} : k == 1 ? rtti::metaType<void>() : k == 2 ? rtti::MetaType{std::string_view{n}} : rtti::MetaType{std::string_view{}};
    c.note("%s", n.c_str());
    c.check(!m.valid() && !m.typeId().valid() && !m.decayId().valid() && !m.decayed(), "invalid type is valid");
    c.check(m.typeSize() == 0 && m.pointerArity() == 0 && m.typeFlags() == rtti::TypeFlags::Void && m.typeName() == "void" && !m.metaClass(), "invalid type has properties");
    if (k == 2) c.nontrivial();
}
} // namespace
