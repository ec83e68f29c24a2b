#include <common/access.hpp>
using namespace access; using kinds::Pod12; using kinds::Big;
namespace kinds {
inline Pod12 g_pods[64]; inline std::string g_strs[64];
template<> struct Tr<Pod12 *> { static Pod12 *make(int v) { return &g_pods[(unsigned)v % 64]; } static bool same(Pod12 *x, int v) { return x == make(v); } };
template<> struct Tr<Pod12 const *> { static Pod12 const *make(int v) { return &g_pods[(unsigned)v % 64]; } static bool same(Pod12 const *x, int v) { return x == make(v); } };
template<> struct Tr<std::string const *> { static std::string const *make(int v) { return &g_strs[(unsigned)v % 64]; } static bool same(std::string const *x, int v) { return x == make(v); } };
}
static int a = add_accs(L<Pod12, Pod12 const, Pod12 *, Pod12 const *, Pod12 *const, Pod12[2], Pod12 const[2], Big, Big const, Big[2]>{});
static int s = add_srcs(L<Pod12, Pod12 *, Pod12 const *, Pod12[2], Pod12[3], Big, Big[2]>{});
