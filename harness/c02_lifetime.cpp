#include <common/history.hpp>
using namespace kinds; using namespace led;
static std::vector<Kind> const &tracked()
{
    static std::vector<Kind> const ks = {
        K<Obj<8, 4, COPY | MOVE>>::kind("obj8", TRACK), K<Obj<16, 8, COPY | MOVE>>::kind("obj16", TRACK),
        K<Obj<16, 8, MOVE>>::kind("move-only obj16", TRACK), K<Obj<8, 4, COPY | MOVE | COPY_THROWS>>::kind("obj8, copy may throw", TRACK),
        K<Obj<24, 8, COPY | MOVE>>::kind("obj24", TRACK), K<Obj<64, 8, COPY | MOVE | COPY_THROWS>>::kind("obj64, copy may throw", TRACK),
        K<Obj<24, 8, COPY | MOVE | COPY_THROWS | MOVE_THROWS>>::kind("obj24, copy and move may throw", TRACK),
        K<Obj<40, 8, MOVE>>::kind("move-only obj40", TRACK), K<Obj<24, 8, COPY>>::kind("copy-only obj24", TRACK),
        K<Obj<8, 4, COPY>>::kind("copy-only obj8", TRACK), K<Obj<16, 8, COPY | COPY_THROWS>>::kind("copy-only obj16, copy may throw", TRACK),
        K<Obj<16, 8, COPY | MOVE | COPY_THROWS | MOVE_THROWS>>::kind("obj16, copy and move may throw", TRACK),
        K<Obj<16, 16, COPY | MOVE>>::kind("obj16 align 16", TRACK), K<Obj<64, 32, COPY | MOVE | COPY_THROWS>>::kind("obj64 align 32", TRACK),
        K<Obj<8, 4, COPY | MOVE>[3]>::kind("obj8[3]", TRACK), K<Obj<24, 8, COPY | MOVE | COPY_THROWS>[2]>::kind("obj24[2], copy may throw", TRACK),
        K<Obj<64, 32, COPY | MOVE>[2]>::kind("obj64 align 32 [2]", TRACK),
        K<Obj<8, 4, COPY | MOVE | COPY_THROWS>[2][2][2]>::kind("obj8[2][2][2], copy may throw", TRACK), K<Obj<24, 8, MOVE>[2]>::kind("move-only obj24[2]", TRACK), K<Obj<16, 8, COPY | MOVE | COPY_THROWS>[40]>::kind("obj16[40], copy may throw", TRACK),
        K<int>::kind("int"), K<std::string>::kind("string"), K<std::shared_ptr<int>>::kind("shared_ptr"), K<std::unique_ptr<int>>::kind("unique_ptr"), K<Big>::kind("pod240"), K<std::string[2]>::kind("string[2]"), K<long double>::kind("long double"),
    };
    return ks;
}
LAW(lifetime_history, pbt::LEAKS, 60000, 2000000, "histories over tracked content of every size/alignment/copy-move policy without faults; ledger and heap balance at the end; non-trivial: at least 4 steps of at least 3 different operations")
{ hist::run(c, tracked(), {false, true, 6}); }
LAW(lifetime_faults, pbt::LEAKS, 90000, 3000000, "as lifetime_history with copy/move constructors and allocations that throw at generated positions; after a fault the target must be unchanged; non-trivial as above")
{ hist::run(c, tracked(), {true, true, 6}); }
LAW(lifetime_narrow, pbt::LEAKS, 60000, 2000000, "as lifetime_faults over 2..3 kinds per case")
{
    std::vector<Kind> ks; size_t n = 2 + c.draw(2);
    for (size_t i = 0; i < n; ++i) ks.push_back(c.pick_of(tracked()));
    hist::run(c, ks, {true, true, 4});
}
// known finding: see known_findings.txt
PROBE(C02_moved_from_shell, "moving or swapping a variant that keeps a small, nothrow movable class object in place never runs the destructor of the moved-from object", false)
{
    static long live; live = 0;
    struct R { R() noexcept { ++live; } R(R &&) noexcept { ++live; } R(R const &) noexcept { ++live; } ~R() { --live; } long x = 0; };
    { rtti::variant a{R{}}; rtti::variant b{std::move(a)}; }
    return live > 0;
}
