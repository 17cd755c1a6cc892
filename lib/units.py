"""Build and run generated bridge programs."""
import os, re, shutil, threading
import common
from common import *
import bridgegen as bg

XB = os.path.join(VERIF, "lib", "xb")
_tl = threading.local()
def vgen():
    if not hasattr(_tl, "g"): _tl.g = VGen()
    return _tl.g

def support_obj(san, cxx, std="c++17"):
    rt = rtdeps(san, cxx)
    out = os.path.join(WORK, "run", "support-%s-%s-%s-%s-%d.o" % (san, cxx.replace("+", "x"), std, common.CONF["name"], os.getpid()))
    os.makedirs(os.path.dirname(out), exist_ok=True)
    with _named_lock(out):
        if not os.path.exists(out):
            r = cxx_compile(os.path.join(XB, "support.cc"), out, rt.cflags + ["-I", XB, "-I", cxx_include_dir(), "-Wno-everything" if cxx == "clang++" else "-w"], cxx, std)
            if r.rc: raise InfraError("support.cc: " + r.err[-3000:])
    return out
_named_lock = common._named

class BuildFailure(Exception):
    def __init__(s, stage, text, files): s.stage, s.text, s.files = stage, text, files

# The crate has no std; the support code in its root module gets one under its own name,
# which neither the bridge modules nor what they expand to can see.
NOSTD = """#![allow(warnings)]
#![no_std]
#[macro_use] extern crate std as thestd;
use thestd as std;
use thestd::prelude::rust_2021::*;
"""
WARN = ["-Wall", "-Wextra", "-Wpedantic", "-Wno-dollar-in-identifier-extension", "-Wno-unused-parameter"]

def build_unit(unit, d, san="asan", cxx="clang++", std="c++17", bridge_flags=()):
    """Returns the executable; raises BuildFailure when code the tools accepted
    does not generate, compile or link."""
    os.makedirs(d, exist_ok=True)
    rt = rtdeps(san, cxx)
    files = dict(unit.emit() if hasattr(unit, "emit") else unit)
    if common.CONF["nostd"]: files["unit.rs"] = NOSTD + files["unit.rs"].replace("#![allow(warnings)]\n", "", 1)
    for n, c in files.items():
        with open(os.path.join(d, n), "w") as f: f.write(c)
    mods = sorted(n[:-3] for n in files if re.fullmatch(r"ffi\d+\.rs", n))
    g = vgen()
    for m in mods:
        r = g.gen(files[m + ".rs"])
        if r[0] != "OK": raise BuildFailure("generate", "%s: %s" % (m, " ".join(map(str, r))), files)
        open(os.path.join(d, m + ".rs.h"), "w").write(r[1])
        open(os.path.join(d, m + ".rs.cc"), "w").write(r[2])
    inc = ["-I", d, "-I", XB, "-I", cxx_include_dir()]
    jobs = [("cxx", m + ".rs.cc", m + ".o", ["-w"] + list(bridge_flags) + common.CONF["bridge"]) for m in mods]
    jobs.append(("cxx", "main.cc", "main.o", ["-Wno-everything" if cxx == "clang++" else "-w"]))
    jobs.append(("rs", "unit.rs", "libunit.a", []))
    def one(j):
        k, src, out, fl = j
        if k == "cxx":
            return j, cxx_compile(os.path.join(d, src), os.path.join(d, out), rt.cflags + inc + fl, cxx, std)
        return j, rt.rustc(os.path.join(d, src), os.path.join(d, out), "staticlib", ["--crate-name", "unit"])
    for j, r in pmap(one, jobs, 3):
        if r.timeout: raise InfraError("compile timeout " + j[1])
        if r.rc: raise BuildFailure("compile " + j[1], r.err[:4000], files)
    exe = os.path.join(d, "unit")
    r = run([cxx, *rt.cflags, "-o", exe, *[os.path.join(d, m + ".o") for m in mods], os.path.join(d, "main.o"),
             support_obj(san, cxx, std), os.path.join(d, "libunit.a"), "-lpthread", "-ldl", "-lm"], timeout=200)
    if r.rc: raise BuildFailure("link", r.err[:4000], files)
    return exe

def build_plain(files, d, cxx="clang++", std="c++17", cflags=(), san="none", rsflags=(), opts=None):
    """The same without the support library: ffiN.rs, unit.rs (static library), other .cc files."""
    os.makedirs(d, exist_ok=True)
    rt = rtdeps(san)
    for n, c in files.items():
        with open(os.path.join(d, n), "w") as f: f.write(c)
    g = vgen()
    mods = sorted(n[:-3] for n in files if re.fullmatch(r"ffi\d+\.rs", n))
    for m in mods:
        r = g.gen(files[m + ".rs"], (opts or {}).get(m, ""))
        if r[0] != "OK": raise BuildFailure("generate", "%s: %s" % (m, " ".join(map(str, r))), files)
        open(os.path.join(d, m + ".rs.h"), "w").write(r[1]); open(os.path.join(d, m + ".rs.cc"), "w").write(r[2])
    inc = ["-I", d, "-I", cxx_include_dir(), "-O0", *(cflags or ["-w"]), *(rt.cflags if san != "none" else [])]
    ccs = [m + ".rs.cc" for m in mods] + sorted(n for n in files if n.endswith(".cc"))
    def one(x):
        if x == "unit.rs": return x, rt.rustc(os.path.join(d, x), os.path.join(d, "libunit.a"), "staticlib", ["--crate-name", "unit", *rsflags])
        return x, cxx_compile(os.path.join(d, x), os.path.join(d, x + ".o"), inc, cxx, std)
    for x, r in pmap(one, ["unit.rs"] + ccs, 3):
        if r.timeout: raise InfraError("compile timeout " + x)
        if r.rc or (cflags and r.err.strip()): raise BuildFailure("compile " + x, r.err[:4000], files)
    exe = os.path.join(d, "unit")
    r = run([cxx, *(rt.cflags if san != "none" else []), "-o", exe, *[os.path.join(d, x + ".o") for x in ccs], os.path.join(d, "libunit.a"), "-lpthread", "-ldl", "-lm"], timeout=200)
    if r.rc: raise BuildFailure("link", r.err[:4000], files)
    return exe

SUMMARY = re.compile(r"^SUMMARY (.*)$", re.M)

def run_unit(exe, seed, iters, timeout=300, only=None):
    """-> (summary dict or None, [fail lines], Result)"""
    r = run([exe, str(seed), str(iters)] + ([only] if only else []), timeout=timeout)
    m = SUMMARY.search(r.out)
    summ = {k: int(v) for k, v in (x.split("=") for x in m.group(1).split())} if m else None
    fails = [l for l in r.out.splitlines() if l.startswith("FAIL ")]
    return summ, fails, r
