#!/usr/bin/env python3
"""Class hierarchies for C10, C11 and C17: gen_hier.py OUTDIR SEED TIER PROPERTY

Every hierarchy is valid C++ by construction: a direct base is kept only if it is an unambiguous base.
"""
import pathlib, random, sys

out, seed, tier = pathlib.Path(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
count = 20 if tier == "quick" else 56
rnd = random.Random(seed * 7919 + 17)


def subobjects(bases, c, prefix, acc):
    acc[prefix] = c
    for b, virt in bases[c]:
        subobjects(bases, b, ("V", b) if virt else prefix + (b,), acc)
    return acc


def hierarchy(n):
    """-> list of base lists [(index, virtual)], classes in definition order"""
    shape = rnd.choice(["any", "deep", "wide", "wide", "diamond", "virtual", "virtual"])
    roots = rnd.randint(2, max(2, n - 2)) if shape == "wide" else 1
    mixed = rnd.choice([1.0, 1.0, 0.8])
    bases = []
    for c in range(n):
        want = 0 if c < roots else rnd.choice({"deep": [1, 1, 1, 2], "wide": [2, 2, 3, 4], "diamond": [1, 1, 2, 3], "virtual": [1, 2, 2, 3, 3]}.get(shape, [0, 1, 1, 2, 2, 3]))
        cand = list(range(c))
        rnd.shuffle(cand)
        if shape == "deep":
            cand.sort(key=lambda x: -x if rnd.random() < 0.8 else 0)
        if shape == "diamond":
            cand.sort(key=lambda x: x)
        chosen = []
        for b in cand:
            if len(chosen) == want:
                break
            virt = shape == "virtual" and rnd.random() < mixed or rnd.random() < (0.6 if shape == "diamond" else 0.25)
            trial = chosen + [(b, virt)]
            counts = {}
            for cls in subobjects(bases + [trial], c, ("R", c), {}).values():
                counts[cls] = counts.get(cls, 0) + 1
            if all(counts[x] == 1 for x, _ in trial):
                chosen = trial
        bases.append(chosen)
    return bases


def emit(h, bases):
    s = [f"namespace h{h} {{"]
    info = rnd.random() < 0.85
    abstract = {c for c in range(len(bases)) if info and rnd.random() < 0.12}
    for c, bl in enumerate(bases):
        head = f"struct C{c}"
        if bl:
            head += ": " + ", ".join(("virtual " if v else "") + f"C{b}" for b, v in bl)
        body = []
        if info:
            body.append("DECLARE_CLASSINFO public:")
            body.append(f"virtual ~C{c}() {{}}")
            body.append(f"virtual int pure() const = 0;" if c in abstract else f"virtual int pure() const {{ return {c}; }}")
        body.append(f"C{c}() {{}}")
        if info:
            body.append(f"C{c}(C{c} const &) = default;")
        body.append(f"int tag{c} = {c};")
        for k in range(rnd.choice([0, 0, 1, 3])):
            body.append(f"{rnd.choice(['char', 'long', 'int'])} f{k}[{rnd.randint(1, 3)}] = {{}};")
        if sys.argv[4] == "C17":
            body.append(f"int g{c}(int) {{ return {h} * 1000 + {c} * 100; }} int k{c}() const {{ return {h} * 1000 + {c} * 100 + 1; }}")
        s.append(head + " { " + " ".join(body) + " };")
    s.append("}")
    s.append("namespace hier {")
    for c, bl in enumerate(bases):
        s.append(f"template<> struct Info<h{h}::C{c}> {{ using bases = L<" + ", ".join(f"h{h}::C{b}" for b, _ in bl) + f">; static constexpr int index = {c}; static constexpr bool info = {'true' if info else 'false'}; static int &tag(h{h}::C{c} &x) {{ return x.tag{c}; }}" + (f" static constexpr int hier = {h}; static auto mem() {{ return &h{h}::C{c}::g{c}; }} static auto cmem() {{ return &h{h}::C{c}::k{c}; }} static auto tagp() {{ return &h{h}::C{c}::tag{c}; }}" if sys.argv[4] == "C17" else "") + " };")
    s.append("}")
    return "\n".join(s), f'static int const reg_h{h} = hier::add<' + ", ".join(f"h{h}::C{c}" for c in range(len(bases))) + f'>("h{h}");'


harness = {"C10": "c10_hier.hpp", "C11": "c11_hier.hpp", "C17": "c17_hier.hpp"}[sys.argv[4]]
defs, files = [], [[] for _ in range(10)]
canary = ["#include <rtti/metadefine.h>\n#include <rtti/variant.h>\nnamespace hier { template<class...> struct L {}; template<class> struct Info; }"]
for h in range(count):
    d, r = emit(h, hierarchy(rnd.randint(3, 7)))
    canary.append(d)
    files[h % 10].append(d + "\n" + r)
(out / "hier_canary.cpp").write_text("\n".join(canary) + "\n")
for i, f in enumerate(files):
    if f:
        (out / f"hier{i}.cpp").write_text(f"#include <{harness}>\n" + "\n".join(f) + "\n")
