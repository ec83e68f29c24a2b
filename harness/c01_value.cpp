#include <common/history.hpp>
using namespace kinds; using namespace led;
static std::vector<Kind> const &all()
{
    static std::vector<Kind> const ks = {
        K<int>::kind("int"), K<bool>::kind("bool"), K<char>::kind("char"), K<unsigned char>::kind("uchar"), K<short>::kind("short"),
        K<unsigned long>::kind("ulong"), K<long long>::kind("longlong"), K<float>::kind("float"), K<double>::kind("double"), K<long double>::kind("long double"),
        K<Scoped>::kind("enum class"), K<Unscoped>::kind("enum"), K<std::nullptr_t>::kind("nullptr_t"),
        K<int*>::kind("int*"), K<int const*>::kind("int const*"), K<int**>::kind("int**"), K<void*>::kind("void*"), K<char const*>::kind("char const*"),
        K<Fn>::kind("function pointer"), K<MemObj>::kind("member object pointer"), K<MemFn>::kind("member function pointer"),
        K<Un>::kind("union"), K<Empty>::kind("empty class"), K<Pod12>::kind("pod12"), K<Pod16>::kind("pod16"), K<Pod17>::kind("pod17"), K<Big>::kind("pod240"), K<Over>::kind("alignas(32) pod"),
        K<std::string>::kind("string"), K<std::vector<int>>::kind("vector"), K<std::shared_ptr<int>>::kind("shared_ptr"), K<std::unique_ptr<int>>::kind("unique_ptr"),
        K<MoveOnlyBig>::kind("move-only 40 bytes"), K<std::function<int()>>::kind("std::function"), K<std::map<int, std::string>>::kind("map"), K<std::pair<int, std::string>>::kind("pair"),
        K<std::array<int, 3>>::kind("std::array"), K<std::optional<int>>::kind("optional"), K<VirtV>::kind("polymorphic"), K<Self>::kind("self-pointing 16 bytes"), K<SelfBig>::kind("self-pointing 56 bytes"), K<Self[3]>::kind("self-pointing[3]"),
        K<int[3]>::kind("int[3]"), K<char[6]>::kind("char[6]"), K<double[1]>::kind("double[1]"), K<int[2][3]>::kind("int[2][3]"), K<int*[2]>::kind("int*[2]"), K<Pod16[2]>::kind("pod16[2]"), K<std::string[2]>::kind("string[2]"),
        K<int[2][3][4]>::kind("int[2][3][4]"), K<std::string[2][2][3]>::kind("string[2][2][3]"), K<char[3][1][2][2]>::kind("char[3][1][2][2]"), K<Pod17[40]>::kind("pod17[40]"),
        K<Obj<8, 4, COPY | MOVE | EQ>>::kind("tracked 8", TRACK), K<Obj<16, 8, COPY | MOVE>>::kind("tracked 16", TRACK), K<Obj<24, 8, COPY | MOVE>>::kind("tracked 24", TRACK), K<Obj<16, 8, MOVE>>::kind("tracked move-only 16", TRACK),
    };
    return ks;
}
LAW(value_history, 0, 160000, 4000000, "histories of up to 40 construct/assign/copy/move/swap/clear/convert/pool operations over 2..8 variants and 50 content kinds, every variant compared with a typed model after every step; non-trivial: at least 4 steps of at least 3 different operations")
{ hist::run(c, all(), {false, false, 8}); }
// few kinds: collisions of the same kind, deep histories on the same storage strategy
LAW(value_history_narrow, 0, 120000, 3000000, "as value_history, with 2..4 kinds per case so that the same storage strategies meet repeatedly")
{
    std::vector<Kind> ks; size_t n = 2 + c.draw(3);
    for (size_t i = 0; i < n; ++i) ks.push_back(c.pick_of(all()));
    hist::run(c, ks, {false, false, 4});
}
// operations that throw leave their target as it was
static std::vector<Kind> const &throwing()
{
    static std::vector<Kind> const ks = {
        K<Obj<8, 4, COPY | MOVE | COPY_THROWS>>::kind("8 bytes, copy may throw", TRACK), K<Obj<64, 8, COPY | MOVE | COPY_THROWS>>::kind("64 bytes, copy may throw", TRACK),
        K<Obj<16, 8, COPY | COPY_THROWS>>::kind("copy-only 16 bytes, copy may throw", TRACK), K<Obj<24, 8, COPY | MOVE | COPY_THROWS | MOVE_THROWS>>::kind("24 bytes, copy and move may throw", TRACK),
        K<Obj<24, 8, COPY | MOVE | COPY_THROWS>[2]>::kind("24 bytes [2], copy may throw", TRACK), K<Obj<8, 4, COPY | MOVE | COPY_THROWS>[2][2]>::kind("8 bytes [2][2], copy may throw", TRACK),
        K<std::string>::kind("string"), K<std::vector<int>>::kind("vector"), K<std::string[2]>::kind("string[2]"), K<std::map<int, std::string>>::kind("map"), K<Big>::kind("pod240"), K<int>::kind("int"), K<int[3]>::kind("int[3]"), K<std::unique_ptr<int>>::kind("unique_ptr"),
    };
    return ks;
}
LAW(value_faults, 0, 60000, 2000000, "as value_history_narrow over content whose copy or move constructor or memory allocation throws at generated positions: the target of the failed operation keeps its value; non-trivial as above")
{
    std::vector<Kind> ks; size_t n = 1 + c.draw(4);
    for (size_t i = 0; i < n; ++i) ks.push_back(c.pick_of(throwing()));
    hist::run(c, ks, {true, false, 4});
}
