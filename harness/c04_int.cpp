#include <common/access.hpp>
using namespace access;
static int a = add_accs(L<int, int const, int *, int const *, int *const, int const *const,
    int[1], int[2], int[3], int const[2], int const[3]>{});
static int s = add_srcs(L<int, int *, int const *, int[2], int[3], int[1]>{});
