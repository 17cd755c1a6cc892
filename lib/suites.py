"""Hand-written operation-sequence suites: lib/suites/<name>/{ffi0.rs,unit.rs,main.cc[,unit.h]}."""
import os, re
import common
from common import *
import units, bridgegen as bg

SD = os.path.join(VERIF, "lib", "suites")


def suite_files(name):
    d = os.path.join(SD, name)
    files = {}
    for n in os.listdir(d):
        if n.endswith((".rs", ".cc", ".h")): files[n] = open(os.path.join(d, n)).read()
    if os.path.exists(os.path.join(d, "gen.py")):
        g = {}
        exec(open(os.path.join(d, "gen.py")).read(), g)
        g["expand"](files)
    if common.CONF["nostd"]:
        # the parts about traits of std; their entry points stay, and do nothing
        files["unit.rs"] = re.sub(r"(?s)// <std([ \w]*)>\n.*?// </std>\n", lambda m: "".join("#[no_mangle] extern \"C\" fn %s() {}\n" % t for t in m.group(1).split()), files["unit.rs"])
    files["unit.rs"] = "#![allow(warnings)]\n" + bg.open_support_rs() + "\ninclude!(\"suite_support.rs\");\n" + files["unit.rs"]
    for n in sorted(files):
        if re.fullmatch(r"ffi\d+\.rs", n):
            # the bridge is part of the crate, and the generator's input
            files["unit.rs"] += "\n" + files[n]
    files["suite_support.rs"] = open(os.path.join(SD, "suite_support.rs")).read() if os.path.exists(os.path.join(SD, "suite_support.rs")) else ""
    files["suite.h"] = open(os.path.join(SD, "suite.h")).read()
    files.setdefault("unit.h", "#pragma once\n#include \"suite.h\"\n")
    return files


def build_suite(ck, name, san="asan", cxx="clang++", std="c++17", subst=None, tag=""):
    files = suite_files(name)
    for a, b in (subst or {}).items():
        for n in files: files[n] = files[n].replace(a, b)
    d = os.path.join(ck.dir, "suite-%s-%s-%s%s" % (name, san, std, tag))
    try:
        return units.build_unit(files, d, san, cxx, std)
    except units.BuildFailure as e:
        # The suite compiles against the public interface: code that relies on it
        # has stopped building.
        ck.violation("%s/build" % name, "%s\n%s" % (e.stage, e.text), e.files)
        return None


ALL = ("rstr", "rvec", "rslice", "cxxstring", "cxxvector", "uniqueptr", "sharedptr", "errors", "boxfn")


def run_suite(ck, name, nseeds, iters, want=None, exe=None, timeout=300, env=None, jobs=None, cats=None, **kw):
    """Every FAIL line, sanitizer report and crash is a violation of ck's property
    (want: predicate on the slot name of FAIL lines; cats: only these kinds of failure, out of
    mismatch, ownership, leak, badfree, ub, crash)."""
    from checks import _units
    exe = exe or build_suite(ck, name, **kw)
    if not exe: return {}
    totals = {}

    def one(i):
        sd = SEED * 100 + i
        r = run([exe, str(sd), str(iters)], timeout=timeout, env=env)
        files = {"stdout.txt": r.out[-40000:], "stderr.txt": r.err[-40000:]}
        n = 0
        for l in r.out.splitlines():
            if l.startswith("FAIL "):
                slot = l.split()[1]
                if want and not want(slot): continue
                if cats and ("ownership" if " OWNERSHIP " in l else "mismatch") not in cats: continue
                n += 1
                ck.violation("%s/%s" % (name, slot), l + "\nsuite %s seed %d iterations %d" % (name, sd, iters), files)
        s = sanitizer_summary(r.err)
        if r.timeout: ck.violation("%s/hang" % name, "suite did not finish within %ds" % timeout, files)
        elif s and cats and _units.category(r.err) not in cats: ck.log("other-category failure", name, s)
        elif s: ck.violation("%s/sanitizer" % name, "%s (seed %d)\n%s" % (s, sd, r.err[:3000]), files)
        elif r.rc != 0 and not units.SUMMARY.search(r.out) and cats and "crash" not in cats:
            ck.log("other-category failure", name, "rc=%s" % r.rc)
        elif r.rc != 0 and (not units.SUMMARY.search(r.out) or not n and not r.out.count("FAIL ")):
            ck.violation("%s/crash" % name, "suite ended with rc=%s seed %d\n%s" % (r.rc, sd, r.err[:2000] + r.out[-500:]), files)
        m = units.SUMMARY.search(r.out)
        if m:
            for kv in m.group(1).split():
                k, v = kv.split("=")
                with ck.lock: totals[k] = totals.get(k, 0) + int(v)
            d = {k: int(v) for k, v in (x.split("=") for x in m.group(1).split())}
            ck.count(d["events"])
            for k in range(d["distinct_values"]): ck.saw((name, i, k))
        for l in r.out.splitlines():
            if l.startswith("SAMPLE "): ck.sample(name + ": " + l[7:])
            if l.startswith("STAT "):
                _, k, v = l.split()
                with ck.lock: totals["stat." + k] = totals.get("stat." + k, 0) + int(v)
    pmap(one, range(nseeds), jobs)
    if not totals and not ck.violations: raise InfraError("suite %s reported nothing" % name)
    o = ck.notes.setdefault("observed", {})
    for k, v in totals.items(): o["%s.%s" % (name, k)] = v
    return totals


def run_all(ck, cats, nseeds, iters, std="c++17", names=ALL):
    """The operation suites as workload for a property about memory or ownership."""
    n0 = ck.cov["evaluations"]
    def one(name):
        try: run_suite(ck, name, nseeds, iters[name] if isinstance(iters, dict) else iters, cats=cats, std=std, jobs=3)
        except InfraError as e: ck.log("suite", name, str(e)[:300])
    pmap(one, names, 3)
    if ck.cov["evaluations"] == n0 and not ck.violations: raise InfraError("no suite could be run")
