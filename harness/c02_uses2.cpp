#include <c02_uses.hpp>
using namespace led;
static int const added = (uses::all().push_back(USE("obj16, copy and move may throw", Obj<16, 8, COPY | MOVE | COPY_THROWS | MOVE_THROWS | EQ>)), 0);
