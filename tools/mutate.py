#!/usr/bin/env python3
"""Mutation testing of the checks: mutate.py OUT.txt SEED COUNT [FILE-REGEX]

Makes small random edits of /repo's sources in a scratch clone, keeps those which compile and pass the
repository's tests, and runs the checks that cover the file until one reports a violation. Survivors are
printed with their diff: each is either equivalent, outside every property, or a gap in a check.
Nothing here is run by a registered check.
"""
import os, pathlib, random, re, subprocess, sys, shutil
VERIF = pathlib.Path(__file__).resolve().parent.parent
out, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
pat = re.compile(sys.argv[4] if len(sys.argv) > 4 else ".")
R = pathlib.Path(os.environ.get("MUT_REPO", "/tmp/w/mutclone"))
SCALE = os.environ.get("MUT_SCALE", "0.5")
CHECKS = [
    (r"variant_impl\.h", "C01 C02 C04 C09 C03 C11"), (r"argument_impl", "C13 C12 C04 C15"), (r"metamethod_impl", "C12 C13"),
    (r"variant\.(h|cpp)", "C04 C01 C02 C12 C15 C09 C11 C03"), (r"metatype", "C05 C07 C23 C08 C09 C06 C02 C04"),
    (r"metadefine", "C12 C14 C15 C13 C20 C16 C18 C08 C19 C10"), (r"metaclass", "C10 C17 C11 C20 C16 C21"), (r"metacontainer", "C16 C18 C17 C14 C19 C21"),
    (r"metaitem", "C19 C16 C18 C21"), (r"metaenum", "C19 C16"), (r"metanamespace", "C16 C18"), (r"metamethod", "C16 C12"), (r"metaproperty", "C16 C15"), (r"metaconstructor", "C14 C16"),
    (r"typelist|function_traits|signature|misc_traits|sfinae", "C22 C12 C05 C04 C07 C23"), (r"typename", "C06 C22"), (r"finally|tagged_id|defines", "C24 C05"), (r".", "C01 C16"),
]
def sh(c, t=600):
    try: return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t)
    except subprocess.TimeoutExpired as e: return subprocess.CompletedProcess(c, 124, str(e.stdout), "")
def build(t=600):
    return sh(f"cmake -S {R} -B {R}/_build -G Ninja -DCMAKE_CXX_COMPILER=/usr/bin/g++-10 -DCMAKE_BUILD_TYPE=RelWithDebInfo -DBUILD_SHARED_LIBS=ON -DBUILD_EXAMPLES=ON -DBUILD_TESTING=ON -DCMAKE_CXX_FLAGS=-Wno-error && ninja -C {R}/_build src/all examples/all doctest_tests", t)
SWAPS = [("==", "!="), ("!=", "=="), ("&&", "||"), ("||", "&&"), ("<=", "<"), (">=", ">"), (" < ", " <= "), (" > ", " >= "), (" + 1", ""), (" - 1", ""), ("+ ", "- "), ("true", "false"), ("false", "true"), ("++", "--"),
         ("_v<", "_v<"), ("std::move(", "("), ("std::forward", "static_cast"), ("LREF_CONST", "LREF"), ("LREF", "LREF_CONST"), ("RREF", "LREF"), ("break;", ""), ("continue;", ""), ("&=", "|="), ("|=", "&="), (" | ", " & "), (" & ", " | "),
         ("unique_lock", "shared_lock"), ("from", "to"), ("first", "second"), ("begin(", "end("), ("m_items.end()", "m_items.begin()"), ("nullptr", "this"), ("(!", "("), ("if (", "if (!"), ("if constexpr(", "if constexpr(!"), ("0", "1"), ("1", "0"), ("1", "2"), ("copy", "move"), ("Copy", "Move"), ("lhs", "rhs"), ("noexcept", "")]
def mutants(f, rnd):
    lines = f.read_text(encoding="utf-8").split("\n"); depth = 0; incomment = False; ms = []
    for i, l in enumerate(lines):
        s = l.strip()
        if incomment:
            if "*/" in s: incomment = False
            continue
        if s.startswith("/*") and "*/" not in s: incomment = True; continue
        if not s or s.startswith(("//", "#", "static_assert", "namespace", "template", "using namespace", "assert(", "friend", "/*", "*", "DECLARE", "typedef")): continue
        code = l.split("//")[0]
        for a, b in SWAPS:
            if a == b: continue
            for m in re.finditer(re.escape(a), code):
                if a.isalnum() and (re.match(r"\w", code[m.start() - 1:m.start()] or " ") or re.match(r"\w", code[m.end():m.end() + 1] or " ")): continue
                ms.append((i, code[:m.start()] + b + code[m.end():]))
        if s.endswith(";") and not re.match(r"^(return|using|struct|class|enum|extern|static|break|continue|\}|public|private|virtual)", s) and "(" in s and not re.match(r"^[\w:<>,\s*&]+\s+\w+\(.*\)( const)?( noexcept)?( override)?;$", s): ms.append((i, ""))
        if s.startswith("return ") and s.endswith(";"): ms.append((i, code.replace("return ", "return !(").replace(";", ");")))
    return lines, ms
def main():
    rnd = random.Random(seed)
    if not R.exists(): sh(f"git clone -q /repo {R}")
    sh(f"cd {R} && git checkout -q -- . && git fetch -q && git reset -q --hard origin/HEAD")
    b = build()
    if b.returncode: print(b.stdout[-2000:]); sys.exit(1)
    files = [f for g in ("include/rtti/*.h", "include/rtti/detail/*.h", "src/*.cpp", "src/private/*.h") for f in sorted(R.glob(g)) if pat.search(str(f.relative_to(R)))]
    pool = []
    for f in files:
        lines, ms = mutants(f, rnd)
        pool += [(f, m) for m in ms]
    rnd.shuffle(pool); log = open(out, "a", buffering=1); done = 0; stat = {}
    print(len(pool), "possible mutants", file=log)
    def note(kind, txt): stat[kind] = stat.get(kind, 0) + 1; print(f"{kind:9} {txt}", file=log)
    for f, (i, new) in pool:
        if done >= count: break
        rel = f.relative_to(R); orig = f.read_bytes(); lines = orig.decode("utf-8").split("\n"); old = lines[i]
        lines[i] = new + ("\r" if old.endswith("\r") and not new.endswith("\r") else ""); txt = f"{rel}:{i + 1}\n      - {old.strip()}\n      + {new.strip()}"
        f.write_bytes("\n".join(lines).encode("utf-8"))
        try:
            b = build(300)
            if b.returncode: stat["nocompile"] = stat.get("nocompile", 0) + 1; continue
            if "no work" in b.stdout: continue
            t = sh(f"cd {R}/_build && timeout 60 ./bin/doctest_tests")
            if t.returncode: stat["tests"] = stat.get("tests", 0) + 1; continue
            shutil.rmtree(VERIF / "build", ignore_errors=True); done += 1; order = next(c for p, c in CHECKS if re.search(p, str(rel))).split(); caught = None
            for c in order:
                r = sh(f"VERIF_SEED={seed} VERIF_REPO={R} timeout 800 python3 {VERIF}/tools/check.py {c} --scale {SCALE}", 850)
                if r.returncode == 1 and "VIOLATION" in r.stdout: caught = c; break
                if r.returncode not in (0, 1): caught = f"{c}? rc {r.returncode}"; break
            note("caught" if caught and "?" not in caught else "BROKEN" if caught else "SURVIVED", f"{caught or ''} {txt}")
        finally:
            f.write_bytes(orig)
    print(stat, file=log)
main()
