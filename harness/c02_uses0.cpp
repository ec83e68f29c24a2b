#include <c02_uses.hpp>
using namespace led;
static int const added = (uses::all().push_back(USE("obj8", Obj<8, 4, COPY | MOVE | EQ>)), 0);
