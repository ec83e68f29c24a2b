// C02: what conversions, comparisons, reflected calls, properties, constructors and descriptors create is destroyed once.
#include <c02_uses.hpp>
#include <algorithm>
#include <cstring>
using namespace uses;
static std::vector<Use> const &sorted() { static bool done = false; if (!done) { done = true; std::sort(all().begin(), all().end(), [](Use const &a, Use const &b) { return strcmp(a.name, b.name) < 0; }); } return all(); }
LAW(lifetime_uses, pbt::LEAKS, 60000, 2000000, "histories of up to 30 value accesses, conversions (own type, registered converters which throw or refuse), comparisons, reflected calls with every kind of parameter, property accesses, reflected constructors and descriptor constructions over 6 tracked content types, each with a constructor or an allocation that throws at a generated position with probability 1/3; operands keep their values unless they were given away, ledger and heap balance at the end; non-trivial: at least 4 operations")
{
    auto const &u = c.pick_of(sorted()); int n = 1; while (n < 30 && c.more(14)) ++n; c.note("%s", u.name);
    u.run(c, n);
    if (*error()) c.fail("%s", error());
    c.check(alive() == 0, "%zu object(s) were never destroyed (created %ld, destroyed %ld)", alive(), created(), destroyed());
    c.check(hard_shells() == 0, "%zu moved-from object(s) were never destroyed", hard_shells());
    if (soft_shells()) c.excluded("moved-from shell of a small movable object not destroyed (KF)");
}
