#include <common/c06_types.hpp>
namespace { struct Hidden { char c[40]; }; }
extern "C" __attribute__((visibility("default"))) C06_Module c06_module_b()
{ C06_TABLE return {entries, (int)(sizeof entries / sizeof *entries), c06_make, c06_check, [] { return rtti::metaTypeId<Hidden>(); }}; }
