#include <common/access.hpp>
using namespace access;
namespace kinds {
template<> struct Tr<int const **> { static int const **make(int v) { return (int const **)&g_ptrs[(unsigned)v % 64]; } static bool same(int const **x, int v) { return x == make(v); } };
template<> struct Tr<int *const *> { static int *const *make(int v) { return (int *const *)&g_ptrs[(unsigned)v % 64]; } static bool same(int *const *x, int v) { return x == make(v); } };
template<> struct Tr<int const *const *> { static int const *const *make(int v) { return (int const *const *)&g_ptrs[(unsigned)v % 64]; } static bool same(int const *const *x, int v) { return x == make(v); } };
}
static int a = add_accs(L<int **, int const **, int *const *, int const *const *, int **const, int const *const *const,
    int *[2], int *[3], int const *[2], int *const[2], int const *const[2], int const *const[3]>{});
static int s = add_srcs(L<int **, int const **, int *const *, int const *const *, int *[2], int *[3], int const *[2]>{});
