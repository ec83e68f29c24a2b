#include <c02_uses.hpp>
using namespace led;
static int const added = (uses::all().push_back(USE("obj24, copy and move may throw", Obj<24, 8, COPY | MOVE | COPY_THROWS | MOVE_THROWS>)), 0);
