#!/usr/bin/env python3
"""One translation unit per class of harness/common/registry.hpp."""
import sys, pathlib
out = pathlib.Path(sys.argv[1])
for i in range(12):
    ds = ["N0", "N1", "N2", "N3"]
    if i >= 10:
        ds += [f"meta_define<RC<{o}>, {d}>" for o in (0, 1) for d in ("void", "N0", "N1", "N2", "N3")]
    s = "#include <common/registry_class.hpp>\nnamespace reg {\n"
    s += f"static ClassReg<{i}> const reg_;\n"
    for d in ds:
        s += f"template bool class_in<{i}, {d}>(World &, {d} &, Node *, std::string const &, bool);\n"
    (out / f"registry_c{i}.cpp").write_text(s + "}\n")
