#!/usr/bin/env python3
"""Builds one property's harness against /repo's working tree, runs it, writes its evidence file.

usage: check.py ID [--replay FILE] [--only LAW] [--scale X]
exit 0: held on everything explored; 1: VIOLATION line printed; anything else: the check itself is broken
"""
import concurrent.futures as cf, hashlib, json, os, pathlib, shutil, subprocess, sys, time

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
HARN = VERIF / "harness"
sys.path.insert(0, str(VERIF / "tools"))
from specs import SPECS                                            # noqa: E402

CXX = "g++-10"
BASE = ["-std=c++17", "-O1", "-g0", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-pthread", "-w", "-fno-omit-frame-pointer"]
SAN = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all"],
    "tsan": ["-fsanitize=thread"],
    "none": [],
}
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:16]


def tree_hash(root, pats):
    h = hashlib.sha256()
    for pat in pats:
        for f in sorted(root.glob(pat)):
            if f.is_file():
                h.update(str(f.relative_to(root)).encode() + b"\0" + f.read_bytes() + b"\0")
    return h.hexdigest()[:16]


class CompileError(Exception):
    def __init__(self, src, log):
        super().__init__(f"{src}: {log}")
        self.src, self.log = src, log


def run(cmd, **kw):
    return subprocess.run([str(c) for c in cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def compile_one(src, obj, flags):
    tmp = obj.with_suffix(f".{os.getpid()}.o")
    for attempt in (1, 2, 3):
        r = run([CXX, *flags, "-c", src, "-o", tmp])
        if r.returncode == 0:
            os.replace(tmp, obj)
            return obj
        transient = r.returncode < 0 or "internal compiler error" in r.stdout or "Killed" in r.stdout or "signal terminated" in r.stdout
        if not transient:
            break
        time.sleep(2)
    if transient:
        print(f"check: compiler did not survive on {src}:\n{r.stdout[-2000:]}", file=sys.stderr)
        sys.exit(3)
    raise CompileError(src, r.stdout)


def build(pid, spec, seed, tier):
    san = spec.get("san", "asan")
    lib_h = tree_hash(REPO, ["include/**/*", "src/**/*"])
    eng_h = tree_hash(HARN, ["**/*.hpp", "engine/*", "stub/**/*"])
    bdir = VERIF / "build"
    bdir.mkdir(exist_ok=True)
    common = BASE + SAN[san] + spec.get("flags", [])
    inc = [f"-I{HARN}/stub", f"-I{REPO}/include", f"-I{HARN}", f"-I{HARN}/engine"]
    jobs, objs, libobjs = [], [], []
    vis = ["-fvisibility=hidden", "-fvisibility-inlines-hidden", "-fPIC"]
    ldir = bdir / f"lib-{san}-{sha(lib_h, common)}"
    ldir.mkdir(exist_ok=True)
    for s in sorted((REPO / "src").glob("*.cpp")):
        o = ldir / (s.stem + ".o")
        libobjs.append(o)
        if not o.exists():
            jobs.append((s, o, common + vis + ["-fno-rtti", f"-I{REPO}/src", f"-I{REPO}/src/private"] + inc, "lib"))
    # harness objects
    gen = []
    gdir = None
    if spec.get("gen"):
        gdir = bdir / f"gen-{pid}-{seed}-{tier}"
        shutil.rmtree(gdir, ignore_errors=True)
        gdir.mkdir(parents=True)
        r = run([sys.executable, VERIF / "tools" / spec["gen"], gdir, str(seed), tier, pid])
        if r.returncode:
            print(r.stdout, file=sys.stderr)
            sys.exit(3)
        gen = sorted(gdir.glob("*.cpp"))
    hdir = bdir / f"{pid}-{sha(lib_h, eng_h, common, tree_hash(gdir, ['*']) if gdir else '')}"
    hdir.mkdir(exist_ok=True)
    so = spec.get("so", [])
    srcs = [HARN / "engine/pbt.cpp", HARN / "canary.cpp"] + [HARN / s for s in spec["src"]] + gen
    extra = [f"-I{gdir}"] if gdir else []
    for s in srcs + [HARN / x for x in so]:
        o = hdir / f"{s.stem}-{sha(s.read_bytes())}.o"
        kind = "so" if s in [HARN / x for x in so] else ("canary" if "canary" in s.name else "harness")
        if kind != "so":
            objs.append(o)
        if not o.exists():
            jobs.append((s, o, common + inc + extra + (vis if kind == "so" else ["-fPIC"]), kind))
    # largest first
    jobs.sort(key=lambda j: -j[0].stat().st_size)
    errs = []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = {ex.submit(compile_one, s, o, f): (s, kind) for s, o, f, kind in jobs}
        for fu, (s, kind) in futs.items():
            try:
                fu.result()
            except CompileError as e:
                errs.append((kind, e))
    for kind, e in errs:
        if kind in ("lib", "canary"):
            print(f"check: {e.src} does not compile\n{e.log[:4000]}", file=sys.stderr)
            sys.exit(3)
    if errs:
        raise errs[0][1]
    exe = hdir / "run"
    link = [CXX, *common, "-o", exe]
    sos = []
    if so:
        # the library itself as a shared object, plus one shared module per listed source
        lib = hdir / "librtti_under_test.so"
        r = run([CXX, *common, "-shared", "-o", lib, *libobjs])
        if r.returncode:
            print(r.stdout, file=sys.stderr)
            sys.exit(3)
        for x in so:
            s = HARN / x
            m = hdir / f"lib{s.stem}.so"
            r = run([CXX, *common, "-shared", "-o", m, hdir / f"{s.stem}-{sha(s.read_bytes())}.o", lib, f"-Wl,-rpath,{hdir}"])
            if r.returncode:
                print(r.stdout, file=sys.stderr)
                sys.exit(3)
            sos.append(m)
        r = run(link + objs + sos + [lib, f"-Wl,-rpath,{hdir}", "-ldl", "-rdynamic"])
    else:
        r = run(link + objs + libobjs + ["-ldl"])
    if r.returncode:
        if "undefined reference" in r.stdout:
            raise CompileError("link", r.stdout)
        print(r.stdout, file=sys.stderr)
        sys.exit(3)
    return exe


def findings():
    """the "known:" lines of known_findings.txt by id ("fixed:" lines suppress nothing)"""
    out = {}
    p = VERIF / "known_findings.txt"
    for line in p.read_text().splitlines() if p.exists() else ():
        if line.startswith("known: id="):
            i, prop, what = line[len("known: id="):].split(" ", 2)
            out[i] = (prop.removeprefix("property="), what)
    return out


def main():
    pid = sys.argv[1]
    args = sys.argv[2:]
    spec = SPECS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    t0 = time.time()
    rdir = VERIF / "replays" / pid
    rdir.mkdir(parents=True, exist_ok=True)
    (VERIF / "evidence").mkdir(exist_ok=True)
    ev_path = VERIF / "evidence" / f"{pid}.json"
    evidence = {"property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
                "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "rule": spec.get("rule", ""), "samples": []},
                "assumptions": spec.get("assumptions", []), "wall_s": 0.0, "violations": 0}

    def finish(violation=None):
        evidence["wall_s"] = round(time.time() - t0, 2)
        evidence["violations"] = 1 if violation else 0
        ev_path.write_text(json.dumps(evidence, indent=1) + "\n")
        if violation:
            print(f"VIOLATION property={pid} replay={violation}")
            sys.exit(1)
        sys.exit(0)

    try:
        exe = build(pid, spec, seed, tier)
    except CompileError as e:
        # the library and the canary compile, the harness (public API only) does not
        rp = rdir / "compile-failure.log"
        rp.write_text(f"{e.src} no longer compiles against /repo although it uses the public API only\n\n{e.log}")
        print(f"{pid}: {e.src} no longer compiles: {e.log[:1500]}")
        evidence["coverage"]["samples"] = [f"compile {e.src}"]
        evidence["coverage"]["evaluations"] = 1
        finish(rp)

    if "--replay" in args:
        f = args[args.index("--replay") + 1]
        r = subprocess.run([str(exe), "--replay", f])
        sys.exit(r.returncode)

    out = VERIF / "build" / f"out-{pid}-{os.getpid()}.json"
    cmd = [str(exe), "--seed", str(seed), "--tier", tier, "--out", str(out), "--replay-dir", str(rdir), "--workers", str(JOBS)]
    for flag in ("--only", "--scale", "--cap"):
        if flag in args:
            cmd += [flag, args[args.index(flag) + 1]]
    env = dict(os.environ)
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=97:second_deadlock_stack=1:report_signal_unsafe=0:history_size=4"
    env.pop("ASAN_OPTIONS", None)
    tb = time.time()
    if spec.get("san") == "tsan" and shutil.which("setarch"):
        cmd = ["setarch", os.uname().machine, "-R"] + cmd if subprocess.run(["setarch", os.uname().machine, "-R", "true"], stderr=subprocess.DEVNULL).returncode == 0 else cmd
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    sys.stderr.write(r.stderr[-4000:])
    if r.returncode not in (0, 1) or not out.exists():
        print(f"{pid}: harness ended with {r.returncode}: {r.stdout[-2000:]}", file=sys.stderr)
        sys.exit(3)
    res = json.loads(out.read_text())
    out.unlink()
    cov = evidence["coverage"]
    laws = res["laws"]
    cov["evaluations"] = sum(l["cases"] for l in laws)
    cov["distinct_nontrivial"] = sum(l["distinct"] for l in laws)
    cov["rule"] = " | ".join(f"{l['name']}: {l['rule']}" for l in laws)
    cov["samples"] = [f"[{l['name']}] {s}" for l in laws for s in l["samples"][:1]][:12] or ["(none)"]
    cov["laws"] = [{"name": l["name"], "cases": l["cases"], "nontrivial": l["nontrivial"], "distinct_nontrivial": l["distinct"],
                    "stopped_by_time_cap": l["capped"], "classes": l["labels"]} for l in laws]
    cov["failures_that_did_not_reproduce"] = res["inconclusive"]
    cov["build_s"] = round(tb - t0, 1)
    known = {i: what for i, (prop, what) in findings().items() if prop == pid}
    seen = []
    for p in res["probes"]:
        if p["present"] and p["id"] in known:
            print(f"KNOWN-FINDING: property={pid} {p['id']}: {known[p['id']]}")
            seen.append(p["id"])
        elif p["present"]:
            # a probe without an entry in the file is an ordinary violation
            rp = rdir / f"probe-{p['id']}.replay"
            rp.write_text(f"probe {p['id']}\n{p['what']}\n")
            print(f"{pid}: {p['id']}: {p['what']}")
            finish(rp)
    if res["probes"]:
        cov["known_findings_seen"] = seen
    for l in laws:
        print(f"{pid} {l['name']}: {l['cases']} cases, {l['nontrivial']} non-trivial, {l['distinct']} distinct" + (" (time cap)" if l["capped"] else ""))
    f = res["failure"]
    if f:
        print(f"{pid}: law {f['law']} failed ({f['mode']}, {f['choices']} choices after {f['shrink_runs']} shrink runs)\n{f['msg']}\n--- minimal case\n{f['trace']}")
        finish(f["replay"])
    print(f"{pid}: held; {cov['evaluations']} cases in {time.time() - t0:.1f}s (build {cov['build_s']}s)")
    finish()


main()
