// compiles whenever the public headers are usable at all
#include <rtti/metadefine.h>
#include <rtti/variant.h>
#include <rtti/finally.h>
struct CanaryC { int x = 1; int f(int a) { return a + x; } };
int canary()
{
    rtti::global_define()._namespace("canary")._class<CanaryC>("CanaryC")._method("f", &CanaryC::f)._property("x", &CanaryC::x)._end()._end();
    rtti::variant v = CanaryC{};
    return v.invoke("f", 1).to<int>() + v.get_property("x").to<int>();
}
