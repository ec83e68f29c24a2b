#include <common/hier_large.hpp>
namespace large { std::vector<Op> const &ops() { static auto const o = make_all(std::make_integer_sequence<int, TOTAL>{}); return o; } }
