#!/usr/bin/env python3
"""Signatures of reflected functions for C12 and C13: gen_calls.py OUTDIR SEED TIER PROPERTY"""
import pathlib, random, sys
out, seed, tier = pathlib.Path(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
rnd = random.Random(seed * 6007 + 5)
P = ["int", "double", "std::string", "E", "Big", "Trk", "MO", "Base", "Derived", "int *", "int const *", "Base *", "Base const *", "Derived *"]
R = ["void", "int", "std::string", "Trk", "MO", "Big", "E", "Trk const", "int &", "int const &", "Trk &", "std::string const &", "Base &", "Derived const &", "Derived *", "int const *", "Base const *"]
K = ["", " const &", " &", " &&", " const &&"]
count = 64 if tier == "quick" else 160
sigs = [[]] + [[p + k] for p in P for k in (K if tier != "quick" else rnd.sample(K, 2))]      # every arity-one form eventually
while len(sigs) < count + 28:
    n = rnd.choice([0, 1, 2, 2, 2, 3, 3, 4, 5, 6, 8, 9, 10, 10])
    few = rnd.sample(P, min(len(P), rnd.choice([1, 2, 4, 14])))
    sigs.append([rnd.choice(few) + rnd.choices(K, [5, 4, 4, 3, 1])[0] for _ in range(n)])
files = [[] for _ in range(16)]
for i, s in enumerate(sigs):
    r = R[i % len(R)] if i < len(R) else rnd.choice(R)
    files[i % 16].append(f'static int const s{i} = calls::add_sig<{i}, {", ".join(["calls::" + x if x.split()[0] in ("E", "Big", "Trk", "MO", "Base", "Derived") else x for x in [r] + s])}>("{r}");')
for i, f in enumerate(files):
    (out / f"calls{i}.cpp").write_text("#include <common/calls.hpp>\n" + "\n".join(f) + "\n")
