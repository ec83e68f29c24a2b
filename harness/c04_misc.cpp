#include <common/access.hpp>
using namespace access; using namespace kinds;
namespace kinds {
inline int g_grid[64][3];
using Row = int (*)[3];
template<> struct Tr<Row> { static Row make(int v) { return &g_grid[(unsigned)v % 64]; } static bool same(Row x, int v) { return x == make(v); } };
}
bool operator==(Un const &l, Un const &r) { return l.i == r.i; }
static int a = add_accs(L<bool, char, double, unsigned long, long double, Scoped, Scoped const, Unscoped, Fn, Fn const, MemObj, MemFn, void *, void const *, void *const, char const *, char *, char[5], char const[5],
    int[2][3], int const[2][3], int[3][3], Row, int const (*)[3], Un, Un const>{});
static int s = add_srcs(L<bool, char, double, unsigned long, long double, Scoped, Unscoped, Fn, MemObj, MemFn, void *, char const *, char[5], int[2][3], int[3][3], Row>{});
