#include <c02_uses.hpp>
using namespace led;
static int const added = (uses::all().push_back(USE("obj64 align 32, copy may throw", Obj<64, 32, COPY | MOVE | COPY_THROWS | EQ>)), 0);
