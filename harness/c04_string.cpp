#include <common/access.hpp>
using namespace access;
namespace kinds {
inline std::string g_strs2[64];
template<> struct Tr<std::string *> { static std::string *make(int v) { return &g_strs2[(unsigned)v % 64]; } static bool same(std::string *x, int v) { return x == make(v); } };
}
static int a = add_accs(L<std::string, std::string const, std::string *, std::string const *, std::string[2], std::string const[3], std::vector<int>, std::shared_ptr<int>, std::unique_ptr<int>, std::unique_ptr<int> const>{});
static int s = add_srcs(L<std::string, std::string *, std::string[2], std::string[3], std::vector<int>, std::shared_ptr<int>, std::unique_ptr<int>>{});
