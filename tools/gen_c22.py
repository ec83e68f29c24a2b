#!/usr/bin/env python3
"""C22: generated programs over type lists, callables, signatures, names and traits.

Every entry is a C++ expression rendering what the library computed, and the text a model in Python expects.
The model works on ordinary Python lists and trees; nothing of the library's metaprogramming is reused."""
import random, sys, pathlib

out, seed, tier = pathlib.Path(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
rnd = random.Random(f"c22-{seed}-{tier}")
N = {"quick": 1, "thorough": 5}[tier]
FILES = 8 if tier == "quick" else 24

# ------------------------------------------------------------------------------------------------ types
BASES = ["int", "char", "double", "bool", "unsigned int", "long int", "S0", "S1", "S2", "nsx::S3", "E0", "E1"]
CLASSES = {"S0", "S1", "S2", "nsx::S3"}
SIZES = {"int": 4, "char": 1, "double": 8, "bool": 1, "unsigned int": 4, "long int": 8, "S0": 1, "S1": 16, "S2": 24, "nsx::S3": 8, "E0": 4, "E1": 1, "void": 0}

def B(n): return ("b", n)
def P(t): return ("p", t)
def C(t):
    if t[0] == "a": return ("a", t[1], C(t[2]))
    return t if t[0] in ("c", "r", "rr", "f") else ("c", t)
def R(t): return t if t[0] == "r" else R(t[1]) if t[0] == "rr" else ("r", t)
def RR(t): return t if t[0] in ("r", "rr") else ("rr", t)
def A(n, t): return ("a", n, t)
def X(args): return ("x", tuple(args))          # Box<...>
def L(ts): return ("L", tuple(ts))

def show(t):                                     # canonical, structural
    k = t[0]
    if k == "b": return t[1]
    if k == "p": return f"ptr({show(t[1])})"
    if k == "c": return f"const({show(t[1])})"
    if k == "v": return f"volatile({show(t[1])})"
    if k == "cv": return f"cv({show(t[1])})"
    if k == "r": return f"ref({show(t[1])})"
    if k == "rr": return f"rref({show(t[1])})"
    if k == "a": return f"arr({t[1]},{show(t[2])})"
    if k == "f": return f"fn({show(t[1])};{','.join(show(x) for x in t[2])}{';noexcept' if t[3] else ''})"
    if k == "x": return f"Box({','.join(show(x) for x in t[1])})"
    if k == "L": return f"list({','.join(show(x) for x in t[1])})"
    if k == "T": return f"tuple({','.join(show(x) for x in t[1])})"
    if k == "n": return f"Pair({show(t[1])},{show(t[2])})"
    raise ValueError(k)

def cpp(t):                                      # by aliases, so spelling needs no declarators
    k = t[0]
    if k == "b": return t[1]
    if k == "p": return f"Ptr<{cpp(t[1])}>"
    if k == "c": return f"Const<{cpp(t[1])}>"
    if k == "r": return f"Ref<{cpp(t[1])}>"
    if k == "rr": return f"RRef<{cpp(t[1])}>"
    if k == "a": return f"Arr<{cpp(t[2])}, {t[1]}>"
    if k == "f": return f"{'FnN' if t[3] else 'Fn'}<{', '.join([cpp(t[1])] + [cpp(x) for x in t[2]])}>"
    if k == "x": return f"Box<{', '.join(cpp(x) for x in t[1])}>"
    if k == "L": return f"mpl::type_list<{', '.join(cpp(x) for x in t[1])}>"
    if k == "T": return f"std::tuple<{', '.join(cpp(x) for x in t[1])}>"
    raise ValueError(k)

def spell(t, inner="", cv=""):                   # the way the compiler spells a type
    k = t[0]
    if k == "b": return cv + t[1] + (" " + inner if inner[:1] in ("(", "[") else inner)
    if k == "c":
        u = t[1]
        if u[0] == "p": return spell(u[1], "* const" + sep(inner), "") if not needs_paren(u[1]) else spell(u[1], "(* const" + sep(inner) + ")")
        return spell(u, inner, "const ")
    if k in ("p", "r", "rr"):
        s = {"p": "*", "r": "&", "rr": "&&"}[k] + inner
        if inner and k == "p" and inner[:1] == "[": s = "* " + inner
        return spell(t[1], "(" + s + ")") if needs_paren(t[1]) else spell(t[1], s)
    if k == "a":
        dims, u = f"[{t[1]}]", t[2]
        while u[0] == "a": dims, u = dims + f"[{u[1]}]", u[2]
        return spell(u, (inner if inner else "") + dims) if inner else spell(u, dims)
    if k == "f":
        args = "(" + ", ".join(spell(x) for x in t[2]) + ")" + (" noexcept" if t[3] else "")
        return spell(t[1], inner + args)
    if k == "x":
        a = ", ".join(spell(x) for x in t[1])
        return cv + "Box<" + a + (" >" if a.endswith(">") else ">") + (" " + inner if inner[:1] in ("(", "[") else inner)
    raise ValueError(k)
def sep(i): return " " + i if i[:1] == "[" else i
def needs_paren(t): return t[0] in ("a", "f") or (t[0] == "c" and t[1][0] in ("a",))

def simple(depth=2):
    r = rnd.random()
    if depth == 0 or r < .45: return B(rnd.choice(BASES))
    if r < .70: return P(simple(depth - 1))
    if r < .88: return C(simple(depth - 1))
    if r < .94: return A(rnd.choice([1, 2, 3, 7]), simple(depth - 1))
    return X([simple(depth - 1) for _ in range(rnd.randint(1, 3))])
def anytype(depth=3):
    t = simple(depth)
    r = rnd.random()
    if r < .2: return R(t)
    if r < .3: return RR(t)
    return t
def param():                                     # a parameter type: no arrays or top-level const by value
    while True:
        t = anytype()
        if t[0] in ("a", "c"): continue
        return t
def result():
    r = rnd.random()
    if r < .2: return B("void")
    while True:
        t = anytype()
        if t[0] not in ("a", "c"): return t

entries = []
def E(group, desc, expected, expr, nontrivial=True): entries.append((group, desc, expected, expr, nontrivial))
def T(group, desc, t, expr, nt=True): E(group, desc, show(t) if not isinstance(t, str) else t, f"show<{expr}>()", nt)
def V(group, desc, v, expr, nt=True): E(group, desc, str(v), f"text({expr})", nt)

# ------------------------------------------------------------------------------------------------ lists
def tlist(maxn=9):
    n = rnd.choice([0, 1, 2, 3, 4, 5, maxn, rnd.randint(0, 14)])
    pool = [anytype(2) for _ in range(rnd.randint(1, max(1, n)))]
    return [rnd.choice(pool) if rnd.random() < .6 else anytype(2) for _ in range(n)]
def maybe_in(l): return rnd.choice(l) if l and rnd.random() < .65 else anytype(2)

MAPS = {"std::add_pointer": lambda t: P(t[1] if t[0] in ("r", "rr") else t), "std::add_const": C, "std::remove_reference": lambda t: t[1] if t[0] in ("r", "rr") else t, "Boxed": lambda t: X([t])}
FILTERS = {"std::is_pointer": lambda t: strip(t)[0] == "p", "std::is_reference": lambda t: t[0] in ("r", "rr"), "std::is_class": lambda t: strip(t)[0] == "x" or (strip(t)[0] == "b" and strip(t)[1] in CLASSES), "std::is_array": lambda t: t[0] == "a", "All": lambda t: True, "None_": lambda t: False}
def strip(t): return t[1] if t[0] == "c" else t
def nested(d=2):
    r = []
    for _ in range(rnd.randint(0, 4)): r.append(nested(d - 1) if d and rnd.random() < .3 else B(rnd.choice(BASES)))
    return L(r)
def tup(t): return ("T", tuple(tup(x) for x in t[1])) if t[0] == "L" else t

for _ in range(90 * N):
    a = tlist(); b = tlist(); la, lb = cpp(L(a)), cpp(L(b)); g = "list"; nt = len(a) >= 2; d = show(L(a)); v = maybe_in(a)
    V(g, f"size of {d}", len(a), f"mpl::typelist_size_v<{la}>", nt)
    V(g, f"isempty {d}", int(not a), f"(int)mpl::typelist_isempty_v<{la}>", nt)
    V(g, f"is_typelist {d}", 1, f"(int)mpl::is_typelist_v<{la}>", nt)
    if a:
        T(g, f"first of {d}", a[0], f"typename mpl::typelist_first<{la}>::type", nt)
        T(g, f"last of {d}", a[-1], f"typename mpl::typelist_last<{la}>::type", nt)
        for i in sorted({0, len(a) - 1, rnd.randrange(len(a))}): T(g, f"get {i} of {d}", a[i], f"mpl::typelist_get_t<{la}, {i}>", nt)
        T(g, f"popfront {d}", L(a[1:]), f"typename mpl::typelist_popfront<{la}>::type", nt)
        T(g, f"popback {d}", L(a[:-1]), f"typename mpl::typelist_popback<{la}>::type", nt)
    V(g, f"index of {show(v)} in {d}", a.index(v) if v in a else -1, f"mpl::typelist_indexof_v<{la}, {cpp(v)}>", nt)
    V(g, f"exists {show(v)} in {d}", int(v in a), f"(int)mpl::typelist_exists_v<{la}, {cpp(v)}>", nt)
    T(g, f"concat {d} and {show(L(b))}", L(a + b), f"typename mpl::typelist_concat<{la}, {lb}>::type", nt)
    p = [anytype(2) for _ in range(rnd.randint(0, 3))]; pp = "".join(", " + cpp(x) for x in p)
    T(g, f"pushfront {show(L(p))} to {d}", L(p + a), f"typename mpl::typelist_pushfront<{la}{pp}>::type", nt)
    T(g, f"pushback {show(L(p))} to {d}", L(a + p), f"typename mpl::typelist_pushback<{la}{pp}>::type", nt)
    r = list(a)
    if v in r: r.remove(v)
    T(g, f"remove {show(v)} from {d}", L(r), f"mpl::typelist_remove_t<{la}, {cpp(v)}>", nt)
    T(g, f"remove all {show(v)} from {d}", L([x for x in a if x != v]), f"mpl::typelist_removeall_t<{la}, {cpp(v)}>", nt)
    dd = [x for i, x in enumerate(a) if x not in a[i + 1:]]
    if len(dd) == len(a): T(g, f"remove duplicates of {d}", L(a), f"mpl::typelist_remove_duplicates_t<{la}>", nt)
    else: E(g, f"remove duplicates of {d} (as a set)", "{" + " ".join(sorted(show(x) for x in set(a))) + "}", f"as_set<mpl::typelist_remove_duplicates_t<{la}>>()", nt)
    sh = list(a); rnd.shuffle(sh)
    if rnd.random() < .5 and sh:
        m = rnd.random()
        if m < .4: sh[rnd.randrange(len(sh))] = rnd.choice(a)
        elif m < .7: sh.pop()
        else: sh.append(rnd.choice(a))
    V(g, f"unordered equality of {d} and {show(L(sh))}", int(sorted(map(show, a)) == sorted(map(show, sh))), f"(int)mpl::typelist_unorderedequal_v<{la}, {cpp(L(sh))}>", nt)
    f = rnd.choice(sorted(MAPS)); T(g, f"map {f} over {d}", L([MAPS[f](x) for x in a]), f"mpl::typelist_map_t<{la}, {f}>", nt)
    f = rnd.choice(sorted(FILTERS)); T(g, f"filter {f} of {d}", L([x for x in a if FILTERS[f](x)]), f"typename mpl::typelist_filter<{la}, {f}>::type", nt)
    i = anytype(1); acc = i
    for x in a: acc = ("n", acc, x)
    T(g, f"foldl {d} from {show(i)}", acc, f"typename mpl::typelist_foldl<{la}, PairF, {cpp(i)}>::type", nt)
    acc = i
    for x in reversed(a): acc = ("n", x, acc)
    T(g, f"foldr {d} from {show(i)}", acc, f"typename mpl::typelist_foldr<{la}, PairF, {cpp(i)}>::type", nt)
    E(g, f"indexes of {d}", " ".join(str(i) for i in range(len(a))), f"indexes(mpl::index_sequence_for_t<{la}>{{}})", nt)
    n = nested(); T(g, f"tuple of {show(n)}", tup(n), f"typename mpl::typelist_tuple<{cpp(n)}>::type", len(n[1]) >= 2)

# ------------------------------------------------------------------------------------------------ callables
decls = {}                                       # file -> declarations
callables = 0
def callable_entries(file):
    global callables
    k = callables; callables += 1
    r, args = result(), [param() for _ in range(rnd.choice([0, 1, 1, 2, 2, 3, 3, 4, 6, 10]))]
    ne = rnd.random() < .4
    base = ("f", r, tuple(args), ne)
    form = rnd.choice(["fn", "fnptr", "fnref", "cfnptr", "mem", "mem", "mem", "mem", "mem", "mem", "functor", "functor", "lambda", "stdfn", "cfunctor"])
    cls, c, v, lref, rref = B("void"), 0, 0, 0, 0
    acpp = ", ".join(cpp(x) for x in args); rcpp = cpp(r); nx = " noexcept" if ne else ""
    decl = ""
    if form == "fn": ty = f"{'FnN' if ne else 'Fn'}<{', '.join([rcpp] + [cpp(x) for x in args])}>"
    elif form in ("fnptr", "fnref", "cfnptr"):
        f = f"{'FnN' if ne else 'Fn'}<{', '.join([rcpp] + [cpp(x) for x in args])}>"; ty = {"fnptr": f"Ptr<{f}>", "fnref": f"Ref<{f}>", "cfnptr": f"Const<Ptr<{f}>>"}[form]
    elif form == "mem":
        c, v, ref = rnd.randint(0, 1), int(rnd.random() < .3), rnd.choice(["", "", "&", "&&"]); lref, rref = int(ref == "&"), int(ref == "&&")
        cn = rnd.choice(["S0", "S1", "S2", "nsx::S3"]); cls = B(cn); decl = f"using M{k} = {rcpp} ({cn}::*)({acpp}){' const' if c else ''}{' volatile' if v else ''} {ref}{nx};"; ty = f"M{k}"
    elif form in ("functor", "cfunctor"):
        c, v, ref = rnd.randint(0, 1), int(rnd.random() < .15), rnd.choice(["", "", "", "&", "&&"]); lref, rref = int(ref == "&"), int(ref == "&&")
        decl = f"struct Fo{k} {{ {rcpp} operator()({acpp}){' const' if c else ''}{' volatile' if v else ''} {ref}{nx}; }}; NAME(Fo{k})"; cls = B(f"Fo{k}"); ty = f"Fo{k}" + rnd.choice(["", " const", "&", " const&", "&&"])
    elif form == "lambda":
        c = 1; mut = rnd.random() < .3; c = 0 if mut else 1
        decl = f"static auto const la{k} = []({', '.join(cpp(x) for x in args)}){' mutable' if mut else ''}{nx} -> {rcpp} {{ std::abort(); }}; using La{k} = std::remove_const_t<decltype(la{k})>; NAME(La{k})"; cls = B(f"La{k}"); ty = f"La{k}"
    else:
        ne = False; base = ("f", r, tuple(args), False); ty = f"std::function<Fn<{', '.join([rcpp] + [cpp(x) for x in args])}>>" + rnd.choice(["", " const", "&", " const&"])
    self = cls
    if cls != B("void"):
        self = ("cv", cls) if c and v else ("c", cls) if c else ("v", cls) if v else cls
        self = ("rr", self) if rref else ("r", self)
    uni = ("f", r, ((self,) if cls != B("void") else ()) + tuple(args), ne)
    decls.setdefault(file, []).append(decl)
    d = f"{form} {show(base)}{' of ' + cls[1] if cls[1] != 'void' else ''}{' const' if c else ''}{' volatile' if v else ''}{' &' if lref else ''}{' &&' if rref else ''}"
    tr = f"mpl::function_traits<{ty}>"; g = "callable"; L0 = len(entries)
    T(g, f"result of {d}", r, f"typename {tr}::result_type"); T(g, f"class of {d}", cls, f"typename {tr}::class_type"); T(g, f"arguments of {d}", L(args), f"typename {tr}::args")
    V(g, f"arity of {d}", len(args), f"(std::size_t){tr}::arity::value")
    for nm, val in (("const", c), ("volatile", v), ("lrefthis", lref), ("rrefthis", rref), ("noexcept", int(ne))): V(g, f"is_{nm} of {d}", val, f"(int){tr}::is_{nm}::value")
    for i in sorted({0, len(args) - 1} if args else set()): T(g, f"argument {i} of {d}", args[i], f"typename {tr}::template arg<{i}>::type")
    T(g, f"uniform signature of {d}", uni, f"typename {tr}::uniform_signature"); T(g, f"base signature of {d}", base, f"typename {tr}::base_signature")
    # the signature text has the instance as its first parameter
    if cls == B("void"): E("signature", f"signature text of {d}", f"name{k}(" + ", ".join(spell(x) for x in args) + ")", f"rtti::f_signature<{ty}>::get(\"name{k}\")")
    elif cls[1] in SIZES and not v: E("signature", f"signature text of {d}", f"name{k}(" + ", ".join(spell(x) for x in [("rr" if rref else "r", C(cls) if c else cls)] + args) + ")", f"rtti::f_signature<{ty}>::get(\"name{k}\")")
    for i in range(L0, len(entries)): placed[i] = file
placed = {}
for _ in range(170 * N): callable_entries(rnd.randrange(FILES))

# ------------------------------------------------------------------------------------------------ names and signatures
params_lists = []
for _ in range(220 * N):
    t = anytype(4)
    if rnd.random() < .15: t = P(("f", result(), tuple(param() for _ in range(rnd.randint(0, 3))), rnd.random() < .2))
    E("name", f"name of {show(t)}", spell(t), f"std::string(rtti::type_name<{cpp(t)}>())")
for _ in range(120 * N): params_lists.append([anytype(2) for _ in range(rnd.choice([0, 1, 1, 2, 2, 3, 5]))])
params_lists += [[x, y] for x in (B("int"), P(B("int"))) for y in (B("char"), C(B("char")), P(C(B("char"))))]

# ------------------------------------------------------------------------------------------------ traits
def noref(t): return t[1] if t[0] in ("r", "rr") else t
def arity(t):
    if t[0] == "a": return arity(t[2])
    t = strip(t); return 1 + arity(t[1]) if t[0] == "p" else 0
def alen(t): return t[1] * alen(t[2]) if t[0] == "a" else 1
def elem(t): return elem(t[2]) if t[0] == "a" else t
def mask(t):
    t = elem(t)
    def m(t, i): return (1 << i if t[0] == "c" else 0) + (m(elem(strip(t)[1]), i - 1) if strip(t)[0] == "p" else 0)
    return m(t, arity(t))
def nocv(t):
    if t[0] in ("r", "rr"): return (t[0], nocv(t[1]))
    if t[0] == "a": return A(t[1], nocv(t[2]))
    t = strip(t); return P(nocv(t[1])) if t[0] == "p" else t
def decay(t):
    t = noref(t); return P(t[2]) if t[0] == "a" else strip(t)
def base(t):
    t = noref(t)
    if t[0] == "a": return base(elem(t))
    t = strip(t); return base(t[1]) if t[0] == "p" else t
def nop(t):                                      # remove_all_pointers (arrays stop it)
    u = strip(t); return nop(u[1]) if u[0] == "p" else u
def size(t):
    t = noref(t)
    if t[0] == "a": return t[1] * size(t[2])
    t = strip(t); return 8 if t[0] == "p" else 1 if t[0] == "x" else SIZES[t[1]]
for _ in range(130 * N):
    t = anytype(4); g = "trait"; d = show(t); c = cpp(t); n = noref(t); nt = t[0] != "b"
    V(g, f"size_of {d}", size(t), f"rtti::size_of_v<{c}>", nt)
    V(g, f"pointer_arity {show(n)}", arity(n), f"(std::size_t)rtti::pointer_arity<{cpp(n)}>::value", nt)
    V(g, f"array_length {show(n)}", alen(n), f"rtti::array_length_v<{cpp(n)}>", nt)
    V(g, f"const_bitset {show(n)}", mask(n), f"(std::size_t)rtti::const_bitset<{cpp(n)}>::value", nt)
    T(g, f"remove_all_cv {d}", nocv(t), f"rtti::remove_all_cv_t<{c}>", nt)
    T(g, f"full_decay {d}", nocv(decay(t)), f"rtti::full_decay_t<{c}>", nt)
    T(g, f"base_type {d}", base(t), f"rtti::base_type_t<{c}>", nt)
    if not (t[0] in ("r", "rr", "a")) and "arr" not in d: T(g, f"remove_all_pointers {d}", nop(t), f"rtti::remove_all_pointers_t<{c}>", nt)
    k = rnd.randint(0, 4); u = strip(n) if n[0] != "a" else n; w = u
    for _ in range(k): w = P(w)
    T(g, f"add {k} pointers to {show(u)}", w, f"rtti::add_pointers_t<{cpp(u)}, {k}>", nt)
    V(g, f"is_lvalue_const_reference {d}", int(t[0] == "r" and (t[1][0] == "c" or (t[1][0] == "a" and elem(t[1])[0] == "c"))), f"(int)rtti::is_lvalue_const_reference_v<{c}>", nt)
    q = strip(noref(t)); q = strip(q[1]) if q[0] == "p" else None
    V(g, f"is_class_ptr {d}", int(bool(q) and (q[0] == "x" or (q[0] == "b" and q[1] in CLASSES))), f"(int)rtti::is_class_ptr_v<{c}>", nt)
    xs = [anytype(2) for _ in range(rnd.randint(0, 4))]; T(g, f"template arguments of Box of {show(L(xs))}", L(xs), f"rtti::template_type_args_t<Box<{', '.join(cpp(x) for x in xs)}>>", bool(xs))
    V(g, f"is_template_type {show(L(xs))}", 1, f"(int)rtti::is_template_type<Box<{', '.join(cpp(x) for x in xs)}>>::value")
# detection macros over generated classes
for i in range(40 * N):
    f = rnd.randrange(FILES); r, args = result(), [param() for _ in range(rnd.randint(0, 3))]; cst = rnd.randint(0, 1); has, ty = rnd.random() < .7, rnd.random() < .5
    other = [param() for _ in range(rnd.randint(0, 3))]
    name = f"D{i}"; over = rnd.random() < .4 and other != args and has
    decls.setdefault(f, []).append(f"struct {name} {{ {'using inner_t = int;' if ty else ''} {f'{cpp(r)} probe(' + ', '.join(cpp(x) for x in args) + ')' + (' const' if cst else '') + ';' if has else ''} {'void probe(' + ', '.join(cpp(x) for x in other) + ');' if over and other != args else ''} }};")
    sig = f"{cpp(r)}({name}::*)({', '.join(cpp(x) for x in args)}){' const' if cst else ''}"; sig2 = f"{cpp(r)}({name}::*)({', '.join(cpp(x) for x in args)}){'' if cst else ' const'}"
    L0 = len(entries)
    V("detect", f"{name} has type", int(ty), f"(int)has_type_inner_t<{name}>::value"); V("detect", f"{name} has method {show(('f', r, tuple(args), False))}{' const' if cst else ''}", int(has), f"(int)has_method_probe<{sig}>::value")
    V("detect", f"{name} has method of the other constness", 0, f"(int)has_method_probe<{sig2}>::value") if not over else None
    for k in range(L0, len(entries)): placed[k] = f

# ------------------------------------------------------------------------------------------------ output
def q(s): return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'
order = list(range(len(entries)))
byfile = {f: [] for f in range(FILES)}
for i in order: byfile[placed.get(i, i % FILES)].append(i)
for f in range(FILES):
    with open(out / f"c22_{f}.cpp", "w") as o:
        o.write('#include <c22_show.hpp>\n' + "\n".join(decls.get(f, [])) + "\nstatic c22::Entry const table[] = {\n")
        for i in byfile[f]:
            g, d, e, x, nt = entries[i]; o.write(f"{{{q(g)}, {q(d)}, {q(e)}, [] {{ return std::string({x}); }}, {int(nt)}}},\n")
        o.write("};\nstatic c22::Reg const reg{table, sizeof table / sizeof table[0]};\n")
        o.write("static c22::Sig const sigs[] = {\n")
        for k, p in enumerate(params_lists):
            if k % FILES == f: o.write(f"{{{q(', '.join(spell(x) for x in p))}, {len(p)}, [](std::string_view n) {{ return rtti::signature<{', '.join(cpp(x) for x in p)}>::get(n); }}, [](std::string_view n) {{ return rtti::signature<{cpp(L(p))}>::get(n); }}}},\n")
        o.write("};\nstatic c22::SigReg const sreg{sigs, sizeof sigs / sizeof sigs[0]};\n")
