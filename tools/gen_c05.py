"""Random class, union and enum definitions for c05 (gen_c05.py OUTDIR SEED TIER)."""
import random, sys
out, seed, tier = sys.argv[1], int(sys.argv[2]), sys.argv[3]
r = random.Random(seed * 104729 + 5)
N = 40 if tier == "quick" else 160
FILES = 8 if tier == "quick" else 16
defs, names = [], []
def special(n, kind, has_base):
    sig = {"d": f"{n}()", "cc": f"{n}({n} const &)", "mc": f"{n}({n} &&)", "ca": f"{n} &operator=({n} const &)", "ma": f"{n} &operator=({n} &&)"}[kind]
    c = r.choices(["omit", "default", "delete", "user", "usernx", "private"], [40, 20, 15, 12, 8, 3])[0]
    if has_base and kind in ("d", "cc", "mc") and c in ("user", "usernx", "private"): c = "default"   # the base may have no default constructor
    if c == "omit": return ""
    if c == "default": return f"    {sig} = default;\n"
    if c == "delete": return f"    {sig} = delete;\n"
    body = "{ return *this; }" if kind in ("ca", "ma") else "{}"
    nx = " noexcept" if c == "usernx" else ""
    if c == "private": return f"private:\n    {sig} {body}\npublic:\n"
    return f"    {sig}{nx} {body}\n"
for i in range(N):
    n = f"G{i}"
    k = r.choices(["class", "enum", "union"], [80, 10, 10])[0]
    if k == "enum":
        c = r.choice(["", "class "])
        u = r.choice(["", " : char", " : unsigned long", " : short", " : int"])
        defs.append(f"enum {c}{n}{u} {{ {n}_a, {n}_b }};\n")
    elif k == "union":
        m = r.choice(["int a; float b;", "int a;", "char a[13]; double b;", "int a; int *b;"])
        user = r.choice(["", "", f" {n}() {{}} ", f" {n}({n} const &) = delete; {n}() = default; "])
        defs.append(f"union {n} {{ {m}{user} }};\n")
    else:
        bases = [b for b, d in zip(names, defs) if b.startswith("G") and d.startswith(("struct", "class")) and "final" not in d]
        base = ""
        if bases and r.random() < .35:
            base = " : " + r.choice(["public ", "public ", "protected ", "public virtual "]) + r.choice(bases)
        s = f"{r.choice(['struct', 'struct', 'class'])} {n}{base} {{\npublic:\n"
        for kind in ("d", "cc", "mc", "ca", "ma"):
            if r.random() < .6:
                s += special(n, kind, bool(base))
        v = r.choices(["", "vdtor", "virt", "pure", "dtor"], [55, 10, 10, 10, 15])[0]
        s += {"": "", "vdtor": f"    virtual ~{n}() = default;\n", "virt": f"    virtual int f{i}() const {{ return {i}; }}\n    ~{n}() = default;\n" if not base else f"    virtual int f{i}() const {{ return {i}; }}\n",
              "pure": f"    virtual int f{i}() const = 0;\n", "dtor": "" if base else f"    ~{n}() {{}}\n"}[v]
        for j in range(r.randint(0, 3)):
            if r.random() < .15: s += "protected:\n"
            s += f"    {r.choice(['int m', 'char m', 'double m', 'std::string m', 'int *m', 'std::unique_ptr<int> m'])}{j};\n" if r.random() < .85 else f"    {r.choice(['int const m%d = 1;', 'int &m%d = g_int;', 'int const m%d{};']) % j}\n"
            if r.random() < .15: s += "public:\n"
        s += "public:\n"
        e = r.choices(["", "member", "friend", "nx", "pseudo"], [50, 20, 15, 10, 5])[0]
        s += {"": "", "member": f"    bool operator==({n} const &) const {{ return true; }}\n", "friend": f"    friend bool operator==({n} const &, {n} const &) {{ return true; }}\n",
              "nx": f"    bool operator==({n} const &) const noexcept {{ return true; }}\n", "pseudo": f"    bool equals({n} const &) const {{ return true; }}\n    bool operator==(int) const {{ return true; }}\n"}[e]
        s += "};\n"
        defs.append(s)
    names.append(n)
open(out + "/c05_defs.inc", "w").write("#include <string>\n#include <memory>\nstatic int g_int;\nnamespace gen {\n" + "".join(defs) + "}\n")
open(out + "/c05_canary.cpp", "w").write('#include "c05_defs.inc"\n')       # the definitions alone must compile
per = (N + FILES - 1) // FILES
for f in range(FILES):
    ns = names[f * per:(f + 1) * per]
    body = "".join(f"static int s_{n} = facts::add_all<gen::{n}>();\n" for n in ns)
    open(out + f"/c05_gen{f}.cpp", "w").write('#include <common/facts.hpp>\n#include "c05_defs.inc"\n' + body)
