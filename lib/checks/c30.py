"""C30: the same guarantees without std, without exceptions and under every language feature."""
import stat, sys
import common, units, suites, probes, progs, bridgegen as bg
from common import *
from checks import _units

NOEXC = ["-fno-exceptions", "-DRUST_CXX_NO_EXCEPTIONS"]
FULL = dict(common.CONF)
EVERYTHING = {"mismatch", "ownership", "leak", "badfree", "ub", "crash", "build"}
PANICS = ("panic.body", "panic.drop", "panic.callback")


def conf(**kw):
    common.CONF.clear(); common.CONF.update(FULL, **kw); bg.NOTHROW = kw.get("name", "").startswith("noexc")


class Part:
    """Keeps the violations of a configuration apart from those of another."""
    def __init__(s, ck, name):
        s.__dict__.update(ck=ck, name=name, dir=os.path.join(ck.dir, name))
        os.makedirs(s.dir, exist_ok=True)
    def __getattr__(s, n): return getattr(s.ck, n)
    def violation(s, key, what, files=None): s.ck.violation(s.name + "/" + key, "in configuration %s: %s" % (s.name, what), files)


def programs(ck, name, fallible, nrandom, iters, cxx="clang++", std="c++17", pick=None):
    p = Part(ck, name)
    todo = [(f.__name__, lambda f=f: f(SEED)) for f in progs.SYSTEMATIC + (progs.FALLIBLE if fallible else []) if not pick or f.__name__ in pick]
    for i in range(nrandom):
        sd = ck.rng.randrange(1 << 40)
        todo.append(("random/%d" % sd, lambda sd=sd: progs.unit_random(sd, 70)))
    p.__dict__["notes"] = {}
    _units.run_units(p, todo, iters, EVERYTHING, cxx=cxx, std=std)
    ck.notes.setdefault("observed", {})[name] = p.notes.get("observed")


def alloc(ck):
    """The library with feature alloc only; the bridges expand in #![no_std] crates."""
    conf(name="alloc", crate="rtdeps-alloc", nostd=True)
    p = Part(ck, "alloc"); p.__dict__["notes"] = {}
    rtdeps("asan"); vgen_bin()
    programs(ck, "alloc", True, 24 if THOROUGH else 1, (200, 2) if THOROUGH else (8, 1), pick=None if THOROUGH else ("unit_prims", "unit_strings", "unit_vecs", "unit_structs", "unit_ptrs", "unit_fallible_cxx", "unit_fallible_rust"))
    names = suites.ALL + ("threads",) if THOROUGH else ("rstr", "cxxstring", "cxxvector", "uniqueptr", "sharedptr", "errors", "boxfn")
    pmap(lambda n: suites.run_suite(p, n, 6 if THOROUGH else 1, 40 if THOROUGH else 5, jobs=2), names, 3)
    for k in "px": probes.run_probes(p, k)
    ck.notes["observed"]["alloc suites"] = p.notes.get("observed")
    # Rust that cannot unwind
    conf(name="abort", crate="rtdeps-alloc", nostd=True, rust=["-Cpanic=abort"])
    p = Part(ck, "abort"); p.__dict__["notes"] = {}
    for k in "px": probes.run_probes(p, k)
    if THOROUGH: programs(ck, "abort", True, 4, (100, 1))
    ck.notes["observed"]["panic=abort"] = p.notes.get("observed")


def noexc(ck):
    """C++ without exceptions: every operation gives the same result or ends the process."""
    for cxx, std in ([("clang++", "c++17"), ("g++", "c++11"), ("g++", "c++20")] if THOROUGH else [("clang++", "c++17")]):
        conf(name="noexc", lib=NOEXC, bridge=NOEXC)
        rtdeps("asan", cxx)
        if std != "c++11":
            programs(ck, "noexc-%s-%s" % (cxx, std), False, 12 if THOROUGH else 1, (200, 2) if THOROUGH else (8, 1), cxx, std,
                     pick=None if THOROUGH else ("unit_prims", "unit_strings", "unit_vecs", "unit_structs", "unit_ptrs", "unit_refs"))
        deaths(ck, cxx, std)


def deaths(ck, cxx, std):
    files = {n: open(os.path.join(suites.SD, "noexc", n)).read() for n in os.listdir(os.path.join(suites.SD, "noexc"))}
    files["unit.rs"] = "#![allow(warnings)]\n" + files["unit.rs"] + "\n" + files["ffi0.rs"]
    exe = {}
    for which in ("throwing", "noexc"):
        conf(**({} if which == "throwing" else dict(name="noexc", lib=NOEXC, bridge=NOEXC)))
        d = os.path.join(ck.dir, "deaths-%s-%s-%s" % (which, cxx, std)); os.makedirs(d, exist_ok=True)
        try: exe[which] = build(d, files, cxx, std, NOEXC if which == "noexc" else [])
        except units.BuildFailure as e:
            ck.violation("build/%s" % which, "%s with %s -std=%s: %s" % (e.stage, cxx, std, e.text), e.files); return
    env = base_env(ASAN_OPTIONS=ASAN_OPTIONS.replace("detect_leaks=1", "detect_leaks=0"))
    names = run([exe["noexc"]], env=env).out.split()
    if len(names) < 20: raise InfraError("no probes")

    def one(n):
        for bad in "01":
            a = run([exe["throwing"], n, bad], timeout=60, env=env); b = run([exe["noexc"], n, bad], timeout=60, env=env)
            la, lb = a.out.split("\n")[1:2], b.out.split("\n")[1:2]
            desc = "probe %s %s (%s -std=%s): with exceptions rc=%s %s, without rc=%s %s stderr %r" % (n, bad, cxx, std, a.rc, la, b.rc, lb, b.err[:300])
            files = {"with.txt": a.out + a.err, "without.txt": b.out + b.err}
            key = "death/%s/%s" % (n, bad)
            if "BEGIN" not in b.out: raise InfraError(desc)
            ck.count(1); ck.saw((n, bad, b.rc, b.err[:80]))
            if bad == "0" or n.startswith("fine."):
                if b.rc or lb != ["RETURNED 1"]: ck.violation(key, desc + "\nwhere nothing fails", files)
            elif n in PANICS:
                if b.rc != -6 or lb not in ([""], []) and not (n == "panic.drop" and lb[0] == "") or "marker" not in b.err: ck.violation(key, desc + "\ninstead of an abort that logs the panic", files)
            else:
                what = la[0][7:] if la and la[0].startswith("THROWN ") else None
                if b.rc != -6 or lb not in ([""], []): ck.violation(key, desc + "\ninstead of an abort", files)
                elif what is None: pass      # what is thrown is C04 to C06's business
                elif b.err != "Error: %s. Aborting.\n" % what: ck.violation(key, desc + "\ninstead of the message of the exception: Error: %s. Aborting." % what, files)
    pmap(one, names)
    ck.sample("without exceptions: " + " ".join(names[:9]))
    ck.notes.setdefault("observed", {})["death probes %s %s" % (cxx, std)] = len(names)


def build(d, files, cxx, std, extra):
    rt = rtdeps("asan", cxx)
    for n, c in files.items(): open(os.path.join(d, n), "w").write(c)
    g = units.vgen().gen(files["ffi0.rs"])
    if g[0] != "OK": raise units.BuildFailure("generate", str(g), files)
    open(os.path.join(d, "ffi0.rs.h"), "w").write(g[1]); open(os.path.join(d, "ffi0.rs.cc"), "w").write(g[2])
    inc = ["-I", d, "-I", cxx_include_dir(), "-w", *rt.cflags, *extra]
    def one(n):
        if n == "unit.rs": return n, rt.rustc(os.path.join(d, n), os.path.join(d, "libunit.a"), "staticlib", ["--crate-name", "unit"])
        return n, cxx_compile(os.path.join(d, n), os.path.join(d, n + ".o"), inc, cxx, std)
    for n, r in pmap(one, ("unit.rs", "ffi0.rs.cc", "main.cc"), 3):
        if r.timeout: raise InfraError("timeout")
        if r.rc: raise units.BuildFailure("compile " + n, r.err[:4000], files)
    r = run(["clang++" if cxx == "clang++" else cxx, *rt.cflags, "-o", d + "/unit", d + "/ffi0.rs.cc.o", d + "/main.cc.o", d + "/libunit.a", "-lpthread", "-ldl", "-lm"], timeout=200)
    if r.rc: raise units.BuildFailure("link", r.err[:4000], files)
    return d + "/unit"


def language(ck):
    """Which C++ the library's own C++ is compiled as, observed at the compiler."""
    d = os.path.join(ck.dir, "lang"); os.makedirs(d)
    cc = os.path.join(d, "c++-seen"); log = os.path.join(d, "log")
    open(cc, "w").write("#!/bin/sh\necho \"$@\" >> \"$CXX_LOG\"\nexec clang++ \"$@\"\n"); os.chmod(cc, 0o755)
    sets = [("std",), ("alloc",), ("std", "cxx14"), ("alloc", "cxx17"), ("std", "cxx20"), ("std", "cxx14", "cxx20"), ("alloc", "cxx14", "cxx17")]
    if not THOROUGH: sets = sets[:1] + sets[2:5] + [sets[6]]
    tdir = os.path.join(WORK, "target-stdflag")
    for i, fs in enumerate(sets):
        l = "%s%d" % (log, i)
        # another value of CXXFLAGS, so that cargo runs the build script again
        env = base_env(CXX=cc, CXXFLAGS="-DRUN%d" % (i + 100 * os.getpid()), CXX_LOG=l)
        try: arts = cargo(os.path.join(HARNESS, "stdflag", "Cargo.toml"), tdir, args=["--features", ",".join(fs)], env=env)
        except InfraError as e:
            t = str(e)
            if "could not compile `cxx`" in t or "cxx v1" in t: ck.violation("features/" + "+".join(fs), "the library does not build with features %s\n%s" % (fs, t[-2500:])); continue
            raise
        want = max([int(f[3:]) for f in fs if f.startswith("cxx")] or [11])
        seen = [x.split() for x in open(l).read().splitlines() if "cxx.cc" in x and " -c " in " " + x + " "] if os.path.exists(l) else []
        stds = sorted({([a for a in x if a.startswith("-std=")] or ["default"])[-1] for x in seen})
        ck.count(1); ck.saw((fs, tuple(stds)))
        if not seen: raise InfraError("the compiler was not seen")
        if stds != ["-std=c++%d" % want]: ck.violation("features/" + "+".join(fs), "with features %s the library is compiled with %s instead of -std=c++%d" % (fs, stds, want))


def main(ck):
    ck.rule = ("an evaluation is one value compared by a generated program or suite running on a reduced configuration, one process of a probe, or one observed compiler run; "
               "distinct counts distinct values per program, (probe, input, exit) triples and compiler settings")
    try:
        language(ck); alloc(ck); noexc(ck)
    finally: conf()
