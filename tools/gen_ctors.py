#!/usr/bin/env python3
"""Classes with constructors for C14: gen_ctors.py OUTDIR SEED TIER PROPERTY"""
import pathlib, random, sys
out, seed, tier = pathlib.Path(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
rnd = random.Random(seed * 9001 + 7)
P = ["int", "double", "std::string", "E", "Big", "Trk", "MO", "Base", "Derived", "int *", "int const *", "Base *", "Base const *", "Derived *"]
K = ["", " const &", " &", " &&", " const &&"]
Q = lambda t: "calls::" + t if t.split()[0] in ("E", "Big", "Trk", "MO", "Base", "Derived") else t
count = 48 if tier == "quick" else 120
DFLT = ["yes", "no", "deleted", "defaulted"]
COPY = ["yes", "deleted", "defaulted"]
MOVE = ["noexcept", "throwing", "absent", "defaulted", "deleted"]
combos = [(d, c, m) for d in DFLT for c in COPY for m in MOVE if m != "deleted" and not (c == "deleted" and m == "absent")]
rnd.shuffle(combos)
files = [[] for _ in range(12)]
ident = 0
for i in range(count):
    d, c, m = combos[i % len(combos)]
    n = f"C{i}"
    body, ctors = [], []
    seen = set()
    for _ in range(rnd.choice([0, 1, 2, 3, 4, 5])):
        ar = rnd.choice([1, 1, 2, 2, 3, 4, 6, 10])
        ts = tuple(rnd.choice(P) for _ in range(ar))
        if ts in seen: continue
        seen.add(ts)
        ps = [Q(t) + rnd.choices(K, [5, 4, 3, 3, 1])[0] for t in ts]
        expl = rnd.choice(["explicit ", ""])
        par = ", ".join(f"{p} a{j}" for j, p in enumerate(ps))
        body.append(f"    {expl}{n}({par}) {{ o.set(calls::body({ident}, nullptr, {{{', '.join(f'calls::note_param<{p}>(a{j})' for j, p in enumerate(ps))}}})); }}")
        ctors.append((ident, ps)); ident += 1
    pad = rnd.choice(["", "", "    long pad[3] = {1, 2, 3};\n", "    alignas(32) char pad = 1;\n"])
    virt = rnd.choice(["", "    virtual void v() {}\n"])
    # a constructor which braces would prefer: only one given explicitly with a list may reach it
    greedy = f"    template<class T, class = std::enable_if_t<!std::is_same_v<T, {n}> && !std::is_same_v<T, Seed>>> {n}(std::initializer_list<T>) {{ o.set(-99); }}\n" if i % 3 == 1 else ""
    dv = {"yes": f"    {n}() {{ o.set({1000 + i}); Obj::special(BY_DEFAULT); }}\n", "no": "", "deleted": f"    {n}() = delete;\n", "defaulted": f"    {n}() = default;\n"}[d]
    if d == "no" and not ctors: pass
    cv = {"yes": f"    {n}({n} const &x): o(x.o) {{ Obj::special(BY_COPY); }}\n", "deleted": f"    {n}({n} const &) = delete;\n", "defaulted": f"    {n}({n} const &) = default;\n"}[c]
    mv = {"noexcept": f"    {n}({n} &&x) noexcept: o(std::move(x.o)) {{}}\n", "throwing": f"    {n}({n} &&x) noexcept(false): o(std::move(x.o)) {{ if (Obj::boom == BY_MOVE) {{ throw Boom{{7}}; }} }}\n",
          "absent": "", "defaulted": f"    {n}({n} &&) = default;\n", "deleted": ""}[m]
    real = m != "absent"
    traced = {"noexcept": "false", "defaulted": "false", "throwing": "true", "absent": "true"}[m]
    dm = "Obj o{};" if d != "defaulted" else f"struct Def: Obj {{ Def() {{ set({1000 + i}); }} }}; Def o{{}};"
    src = f"""struct {n} {{
{pad}{virt}{greedy}{dv}{cv}{mv}    explicit {n}(Seed s) {{ o.set(s.v); }}
    {dm}
    static constexpr bool traced_default = {'true' if d == 'yes' else 'false'};
    static constexpr bool copy_throws = {'true' if c == 'yes' else 'false'}, move_throws = {'copy_throws' if not real else 'true' if m == 'throwing' else 'false'};
""" + "\n".join(body) + "\n};\n"
    has_d = d in ("yes", "defaulted")
    src += f'static int const r{i} = add_class<{n}>({i}, "{n}", {str(has_d).lower()}, {str(c != "deleted").lower()}, true, {str(real).lower()}, {{{", ".join("make_ctor<" + ", ".join([n] + ps) + f">({k})" for k, ps in ctors)}}});\n'
    files[i % 12].append(src)
for i, f in enumerate(files):
    (out / f"ctors{i}.cpp").write_text("#include <common/ctors.hpp>\nnamespace ctors { namespace {\n" + "\n".join(f) + "}}\n")
