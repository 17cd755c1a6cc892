"""Generated bridge programs as a workload, shared by C01, C02, C03, C19."""
import os, shutil
from common import *
import units, progs, bridgegen as bg


def population(systematic, rnd, nrandom, base):
    """Unit factories: the systematic programs named, plus random programs."""
    out = [(f.__name__, lambda f=f: f(base)) for f in progs.SYSTEMATIC + progs.FALLIBLE if f.__name__ in systematic]
    for i in range(nrandom):
        sd = rnd.randrange(1 << 40)
        out.append(("random/%d" % sd, lambda sd=sd: progs.unit_random(sd, 70)))
    return out


def category(line_or_err):
    t = line_or_err
    if "LeakSanitizer" in t or "detected memory leaks" in t: return "leak"
    if "double-free" in t or "attempting free" in t or "alloc-dealloc-mismatch" in t: return "badfree"
    if "AddressSanitizer" in t or "runtime error:" in t: return "ub"
    return None


def run_units(ck, pop, iters, want, san="asan", cxx="clang++", jobs=None, std="c++17"):
    """want: categories counted as violations of this property, out of
    mismatch, ownership, leak, badfree, ub, crash, build."""
    rtdeps(san, cxx)
    vgen_bin()
    units.support_obj(san, cxx, std)
    built = []

    def one(item):
        name, mk = item
        u = mk()
        d = os.path.join(ck.dir, name.replace("/", "_"))
        try:
            exe = units.build_unit(u, d, san, cxx, std)
        except units.BuildFailure as e:
            if "build" in want:
                ck.violation("build/%s" % name, "accepted bridge program fails in stage %r:\n%s" % (e.stage, e.text), e.files)
            else:
                ck.log("unit %s not built: %s: %s" % (name, e.stage, e.text[:600]))
            return None
        tot = {}
        seeds = [SEED * 1000 + k for k in range(iters[1])]
        for sd in seeds:
            s, fails, r = units.run_unit(exe, sd, iters[0])
            for l in fails:
                ck_fail(ck, name, l, want, exe, sd, iters[0])
            cat = category(r.err)
            if r.timeout:
                if "crash" in want: ck.violation("hang/%s" % name, "unit did not finish", {"stderr.txt": r.err})
            elif cat or r.rc != 0 and not (fails and s):
                c = cat or "crash"
                if c in want:
                    ck.violation("%s/%s" % (c, name), "process of generated program %s ended with rc=%s\n%s\n%s" % (
                        name, r.rc, sanitizer_summary(r.err), r.err[:3000]), {"stdout.txt": r.out[-20000:], "stderr.txt": r.err, **u_files(d)})
                else: ck.log("other-category failure", c, name, sanitizer_summary(r.err))
            if s:
                for k, v in s.items(): tot[k] = tot.get(k, 0) + v
        ck.count(tot.get("events", 0))
        for k in range(tot.get("distinct_values", 0)): ck.saw((name, k))
        if len(ck.samples) < 12:
            fs = [f for b in u.bridges for f in b.funcs][:1]
            for f in fs: ck.sample("%s: %s" % (name, u.func_sig(f, True)))
        shutil.rmtree(d, ignore_errors=True) if not ck.violations else None
        return tot
    res = pmap(one, pop, jobs or max(2, JOBS // 2))
    ok = [r for r in res if r]
    agg = {}
    for r in ok:
        for k, v in r.items(): agg[k] = agg.get(k, 0) + v
    agg["programs"] = len(ok); agg["programs_not_built"] = len(res) - len(ok)
    ck.notes.setdefault("observed", {}).update(agg)
    if not ok and not ck.violations: raise InfraError("no generated program could be built")
    return agg


def u_files(d):
    out = {}
    for n in ("unit.rs", "unit.h", "main.cc", "ffi0.rs", "ffi1.rs"):
        p = os.path.join(d, n)
        if os.path.exists(p): out[n] = open(p).read()
    return out


def ck_fail(ck, name, line, want, exe, sd, it):
    kind = "ownership" if " OWNERSHIP " in line else "mismatch"
    if kind in want:
        ck.violation("%s/%s/%s" % (kind, name, line.split()[1]), line + "\nrun: %s %d %d" % (exe, sd, it))
    else:
        ck.log("other-category failure", line[:200])
