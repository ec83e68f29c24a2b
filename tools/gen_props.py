#!/usr/bin/env python3
"""One translation unit per property type for C15: gen_props.py OUTDIR SEED TIER PROPERTY"""
import pathlib, sys
for i in range(14):
    (pathlib.Path(sys.argv[1]) / f"prop{i}.cpp").write_text(f"#include <common/props.hpp>\nstatic int const r = props::add_type<{i}>();\n")
