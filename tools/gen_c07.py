"""Random deep pointer chains for c07 (gen_c07.py OUTDIR SEED TIER)."""
import random, sys
out, seed, tier = sys.argv[1], int(sys.argv[2]), sys.argv[3]
r = random.Random(seed * 7919 + 13)
lines = []
n = 14 if tier == "quick" else 28
for depth in range(4, 15):
    masks = []
    for base in range(n // 4 + 1):
        m = r.getrandbits(depth + 1) | (r.getrandbits(depth + 1) if r.random() < .5 else 0)
        masks.append(m)
        for _ in range(3):
            k = m
            for _ in range(r.randint(1, 2)):
                k ^= 1 << r.randint(0, depth)
            masks.append(k)
        masks.append(m | ((1 << depth) - 1) << r.randint(0, depth) & ((2 << depth) - 1))
    for m in masks:
        suffix = r.choice(["", " &", " &&", "", " &"])
        t = f"shape::chain_t<int, {depth}, {m}u>"
        if r.random() < .15:
            t = f"shape::chain_t<int, {depth - 1}, {m & ((1 << depth) - 1)}u>"
            e = r.choice([2, 3])
            lines.append(f"add((IdT<std::add_lvalue_reference_t<{t}[{e}]>>*)nullptr);" if "&" in suffix else f"add((IdT<{t}[{e}]>*)nullptr);")
        else:
            lines.append(f"add((IdT<{t}{suffix}>*)nullptr);")
open(out + "/deep_types.inc", "w").write("#include <algorithm>\ntemplate<class T> struct IdT { using type = T; };\n#define DEEP_TYPES(add) \\\n" + " \\\n".join(lines) + "\n")
