// C02: what variants, the registry, converters and deferred definitions own is destroyed once, also when the program ends.
#include <common/ledger.hpp>
#include <rtti/metadefine.h>
#include <rtti/metanamespace.h>
#include <rtti/metaclass.h>
#include <rtti/metaenum.h>
#include <rtti/variant.h>
#include <sys/wait.h>
#include <unistd.h>
#include <memory>
#include <vector>
using namespace led; using namespace rtti;
namespace {
struct Step { int op, a, b; };
using Small = Obj<8, 8, COPY | MOVE>; using Mid = Obj<24, 8, COPY | MOVE>; using Wide = Obj<64, 32, COPY | MOVE>; using CopyOnly = Obj<16, 8, COPY>;
struct Cls { int x = 0; Mid m{1}; }; enum class En { one = 1 };
template<int I> struct Src { int v = I; };
template<int I> struct To { int v; };
template<int I> struct Fun { Mid m{I}; To<I> operator()(Src<I> const &s) const { return To<I>{s.v + m.get()}; } };
int pipe_fd = -1;
[[noreturn]] void verdict(char const *f, size_t n = 0) { char b[256]; int k = snprintf(b, sizeof b, f, n); if (write(pipe_fd, b, (size_t)k) < 0) {} _exit(10); }
// destroyed after everything else
struct Late {
    std::vector<variant> *v = nullptr; std::vector<Step> *steps = nullptr; MetaType_ID id;
    // the library may refuse everything now, but it must not touch what it has destroyed
    void ask(variant &x, Step const &s)
    {
        try {
            switch (s.op) {
            case 7: { MetaType t{s.b % 2 ? x.typeId() : id}; if (t.valid() && (t.typeSize() > 4096 || t.typeName().empty() || t.typeFlags() == TypeFlags::None)) verdict("a type is valid and wrong"); break; }
            case 8: if (s.b % 2 ? x.is<Mid>() : x.data<Small>() != nullptr) { if (!(s.b % 2) && !x.cref<Small>().get()) {} } break;
            case 9: if (s.b % 3 == 0) (void)x.ref<Mid>().get(); else if (s.b % 3 == 1) (void)x.to<Small>().get(); else (void)x.canConvert<To<0>>(); break;
            case 10: (void)x.metaClass(); (void)MetaClass::find(metaTypeId<Cls>()); (void)MetaClass::find("Cls"); break;
            case 11: if (s.b % 3 == 0) (void)MetaType::hasConverter<Src<0>, To<0>>(); else if (s.b % 3 == 1) MetaType::unregisterConverter<Src<0>, To<0>>(); else (void)MetaType::registerConverter<Src<2>, To<2>>(Fun<2>{}); break;
            case 12: { variant y{Src<1>{4}}; (void)y.to<To<1>>(); break; }
            default: (void)(x == x); { auto y = x; if (s.b % 2 && y == x) {} } break;
            }
        }
        catch (std::exception const &) {}
    }
    ~Late()
    {
        if (!v) return;
        for (auto const &s : *steps) {
            if (v->empty()) break; size_t i = (size_t)s.a % v->size(), j = (size_t)s.b % v->size();
            if (s.op >= 7) { ask((*v)[i], s); continue; }
            switch (s.op % 7) { case 0: v->push_back(variant{(*v)[i]}); break; case 1: if (i != j) (*v)[i] = std::move((*v)[j]); break; case 2: { using std::swap; swap((*v)[i], (*v)[j]); break; } case 3: (*v)[i].clear(); break; case 4: (*v)[i] = (*v)[j]; break; case 5: (*v)[i] = Mid{s.b}; break; default: v->erase(v->begin() + (long)i); }
        }
        v->clear(); delete v;
        if (*error()) verdict(error());
        if (alive()) verdict("%zu object(s) were never destroyed", alive());
        if (hard_shells()) verdict("%zu moved-from object(s) were never destroyed", hard_shells());
        _exit(0);
    }
};
__attribute__((init_priority(200))) Late late;
variant made(int k, int x) { switch (k % 5) { case 0: return Small{x}; case 1: return Mid{x}; case 2: return Wide{x}; case 3: return CopyOnly{x}; default: return variant{std::make_shared<Mid>(x)}; } }
template<int I> void converter(int what)
{
    if (what % 3 == 0) { MetaType::registerConverter<Src<I>, To<I>>(Fun<I>{}); }
    else if (what % 3 == 1) { variant v{Src<I>{5}}; try { if (v.to<To<I>>().v != 5 + I) verdict("a converter gives another value"); } catch (bad_variant_convert const &) {} }
    else { MetaType::unregisterConverter<Src<I>, To<I>>(); }
}
struct Chain { Mid m; Chain(int v): m(v) {} void operator()(meta_define<void> d) { d._attribute("from definition", Mid{m.get()}); } };
[[noreturn]] void grandchild(std::vector<Step> const &before, std::vector<Step> const &after)
{
    reset(); auto *v = new std::vector<variant>; late.steps = new std::vector<Step>(after); late.v = v; late.id = metaTypeId<Mid>(); int names = 0;
    for (auto const &s : before) {
        auto g = global_define();
        switch (s.op % 13) {
        case 0: case 1: v->push_back(made(s.a, s.b)); break;
        case 2: if (!v->empty()) v->push_back((*v)[(size_t)s.a % v->size()]); break;
        case 3: g._namespace("n" + std::to_string(s.a % 3))._attribute("a" + std::to_string(s.b % 4), made(s.a, s.b)); break;
        case 4: g._class<Cls>("C")._attribute("a" + std::to_string(s.b % 4), made(s.a, s.b)); break;
        case 5: g._enum<En>("E")._element("e" + std::to_string(s.b % 4), made(s.a, s.b)); break;
        case 6: switch (s.b % 3) { case 0: converter<0>(s.a); break; case 1: converter<1>(s.a); break; default: converter<2>(s.a); } break;
        case 7: { auto n = g._namespace("lazy" + std::to_string(names++)); n._lazy(Chain{s.b}); break; }
        case 8: { auto n = "lazy" + std::to_string(names++); g._namespace(n)._lazy(Chain{s.b}); auto *m = MetaNamespace::global()->getNamespace(n); if (!m || m->attribute("from definition").empty()) verdict("a deferred definition did not run"); break; }
        case 9: if (auto *c = MetaNamespace::global()->getClass("C")) v->push_back(c->defaultConstructor()->invoke()); break;
        case 10: { static variant kept; kept = made(s.a, s.b); break; }
        case 11: { static std::vector<variant> kept; kept.push_back(made(s.a, s.b)); if (kept.size() > 1) kept.push_back(kept[0]); break; }
        default: { static variant const *attr = nullptr; if (auto *n = MetaNamespace::global()->getNamespace("n0")) if (n->attributeCount()) { attr = &n->attribute(0); v->push_back(*attr); } break; }
        }
    }
    exit(0);
}
LAW(at_exit, pbt::ISOLATED, 1500, 40000, "a fresh process stores tracked objects in variants (some static, some surviving every other object of the program), attributes, enum elements, converters and deferred definitions (run or pending), ends with exit(), and the surviving variants are copied, moved, swapped, assigned, cleared and asked for their content after the library's own objects are gone; ledger at the very end; non-trivial: at least 4 steps before and 1 after")
{
    std::vector<Step> before, after; auto step = [&](uint64_t ops) { return Step{(int)c.draw(ops), (int)c.draw(30), (int)c.draw(30)}; };
    do before.push_back(step(13)); while (before.size() < 40 && c.more(12)); while (after.size() < 16 && c.more(6)) after.push_back(step(14));
    for (auto &s : before) c.note("step %d(%d, %d)", s.op, s.a, s.b); for (auto &s : after) c.note("after exit: step %d(%d, %d)", s.op, s.a, s.b);
    int p[2]; if (pipe(p)) c.fail("harness: no pipe");
    pid_t pid = fork(); if (pid < 0) c.fail("harness: no process");
    if (pid == 0) { close(p[0]); pipe_fd = p[1]; grandchild(before, after); }
    close(p[1]); std::string msg; char b[256]; for (ssize_t n; (n = read(p[0], b, sizeof b)) > 0; ) msg.append(b, (size_t)n); close(p[0]);
    int st = 0; waitpid(pid, &st, 0);
    c.check(msg.empty(), "at the end of the program: %s", msg.c_str());
    c.check(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the end of the program fails with %s %d", WIFEXITED(st) ? "status" : "signal", WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st));
    if (before.size() >= 4 && !after.empty()) c.nontrivial();
}
} // namespace
