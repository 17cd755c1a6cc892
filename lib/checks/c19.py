"""C19: accepted bridges compile without warnings, link, and every name reaches what it was declared for."""
from common import *
import decl, hygiene as hyg, nsmatrix, random, re, typespace as ts, units
from collisions import CASES

STDS = ["c++11", "c++14", "c++17", "c++20"]
CXX = ["clang++", "g++"]
EDITIONS = ["2018", "2021", "2024"]


def place(d, fs):
    os.makedirs(d + "/sys", exist_ok=True)
    for n, t in fs.items(): open(os.path.join(d, "sys/u.h" if n == "u.h" else n), "w").write(t)


def build(ck, d, fs, cxx, std, edition, warn=True):
    """None or (stage, message); the executable is d/exe."""
    place(d, fs); g = units.vgen(); rt = rtdeps("none")
    mods = sorted(n[:-3] for n in fs if re.fullmatch(r"ffi\d+\.rs", n))
    for m in mods:
        res = g.gen(fs[m + ".rs"])
        if res[0] != "OK": return "generate", "%s: %s" % (m, res)
        open("%s/%s.rs.h" % (d, m), "w").write(res[1]); open("%s/%s.rs.cc" % (d, m), "w").write(res[2])
    ccs = [m + ".rs.cc" for m in mods] + ["main.cc", "u.cc"]
    base = ["-O0", "-I", d, "-isystem", cxx_include_dir(), "-isystem", d + "/sys"]
    def one(x):
        if x == "unit.rs": return x, rt.rustc(os.path.join(d, x), os.path.join(d, "libunit.a"), "staticlib", ["--crate-name", "unit"], timeout=600, edition=edition)
        w = units.WARN + ["-Werror=return-type"] if warn and re.match(r"ffi\d", x) else ["-w"]
        return x, cxx_compile(os.path.join(d, x), os.path.join(d, x + ".o"), base + w, cxx, std)
    for x, r in pmap(one, ["unit.rs"] + ccs, 2):
        if r.timeout: raise InfraError("compile timeout " + x)
        if r.rc or warn and r.err.strip(): return ("compile " + ("Rust" if x == "unit.rs" else "C++" if r.rc else "warning")), "%s: %s" % (x, "\n".join([l for l in r.err.splitlines() if re.search("error|warning", l)][:6]) + "\n" + r.err[:2500])
    r = run([cxx, "-o", d + "/exe", *["%s/%s.o" % (d, x) for x in ccs], d + "/libunit.a", "-lpthread", "-ldl", "-lm"], timeout=300)
    if r.timeout: raise InfraError("link timeout")
    if r.rc or "warning" in r.err: return "link", r.err[:2500]


def program(ck, i):
    r = random.Random("%d/%s/p/%d" % (SEED, TIER, i)); d = os.path.join(ck.dir, "p%d" % i)
    p = decl.Prog("%d/%s/19/%d" % (SEED, TIER, i), rich=r.choice([3, 8, 16]), numbered=r.choice([8, 16, 24])); fs = p.files()
    cxx, std, ed = CXX[i % 2], r.choice(STDS), r.choice(EDITIONS)
    bad = build(ck, d, fs, cxx, std, ed)
    nf = sum(len(b.funcs) for b in p.b); nt = sum(len(b.types) for b in p.b)
    ck.count(nf + nt, (i, cxx, std, ed))
    if bad: ck.violation("program/" + bad[0], "%s -std=%s, edition %s: %s" % (cxx, std, ed, bad[1]), fs); return
    q = run([d + "/exe"], timeout=120); want = p.numbered_count(); ck.count(want, ("run", i, len(p.b)))
    if q.timeout: raise InfraError("program timeout")
    if q.rc or "DONE 0" not in q.out: ck.violation("program/mixed-up", (q.out + q.err)[-1500:] + "\nexit %s" % q.rc, fs); return
    with ck.lock:
        t = ck.notes.setdefault("programs", {"programs": 0, "bridges": 0, "types": 0, "functions": 0, "called": 0, "overloaded": 0}); t["programs"] += 1; t["bridges"] += len(p.b); t["types"] += nt; t["functions"] += nf; t["called"] += want
        seen = [(f.recv, f.ns, f.cxx) for b in p.b for f in b.funcs]; t["overloaded"] += len(seen) - len(set(seen))
    shutil.rmtree(d, ignore_errors=True)


# ---- types: every accepted type in every position ---------------------------
def batch(ck, i, items):
    r = random.Random("%d/%d" % (SEED, i)); d = os.path.join(ck.dir, "t%d" % i); os.makedirs(d + "/sys", exist_ok=True)
    decls = [(ts.POSITIONS[p][2], ts.decl(x, p, k)) for k, (x, p) in enumerate(items)]
    text, at = ts.bridge(decls); text = text.replace('unsafe extern "C++" { ', 'unsafe extern "C++" { include!("u.h"); ', 1)
    res = units.vgen().gen(text)
    if res[0] != "OK": ck.violation("types/rejected", str(res)[:1500], {"bridge.rs": text}); return
    ed = EDITIONS[i % 3]; cxx = CXX[i % 2]; std = r.choice(STDS); inv = {v: k for k, v in at.items()}
    src = "#![deny(warnings)]\n#![allow(dead_code, unused_variables, unused_imports, unreachable_code, non_snake_case, improper_ctypes, improper_ctypes_definitions, unknown_lints, mismatched_lifetime_syntaxes)]\n" + text + \
          "use {cxx::{CxxString, CxxVector, UniquePtr, SharedPtr, WeakPtr}, std::pin::Pin, std::os::raw::c_char, ffi::{Sh, Lt, En, T, Cx}}; pub struct R(pub u8); pub struct Ru<'a>(pub &'a u8);\n" + ts.implementation(decls) + "\n"
    path = d + "/b.rs"; open(path, "w").write(src)
    open(d + "/b.h", "w").write(res[1]); open(d + "/b.cc", "w").write(res[2]); open(d + "/sys/u.h", "w").write(ts.user_header(items)); open(d + "/h.cc", "w").write('#include "b.h"\n')
    rr = rtdeps("none").rustc(path, d + "/b.rmeta", "lib", ["--emit=metadata", "--crate-name", "b"], timeout=600, edition=ed)
    if rr.timeout: raise InfraError("rustc timeout")
    ck.count(len(items), ("rustc", ed, i))
    if rr.rc or rr.err.strip():
        ls = {int(n) - 1 for n in re.findall(r"b\.rs:(\d+):", rr.err)}
        ck.violation("types/Rust/" + "+".join(sorted({"%s:%s" % (items[inv[l]][1], "/".join(items[inv[l]][0].ctors())) for l in ls if l in inv})[:2]), "edition %s\n%s" % (ed, rr.err[:2500]), {"b.rs": src})
    for f in ("b.cc", "h.cc"):
        q = run([cxx, "-std=" + std, "-fsyntax-only", *units.WARN, "-I", d, "-isystem", cxx_include_dir(), "-isystem", d + "/sys", d + "/" + f], timeout=600)
        if q.timeout: raise InfraError("compile timeout")
        ck.count(len(items), (f, cxx, std, i))
        if q.rc or q.err.strip(): ck.violation("types/C++/" + f, "%s -std=%s\n%s" % (cxx, std, "\n".join([l for l in q.err.splitlines() if re.search("error|warning", l)][:6])), {"b.rs": src, "b.h": res[1], "b.cc": res[2], "u.h": ts.user_header(items)})
    with ck.lock: ck.notes["types in positions"] = ck.notes.get("types in positions", 0) + len(items)
    shutil.rmtree(d, ignore_errors=True)


def collision(ck, i, c):
    fs = c.files(); d = os.path.join(ck.dir, "c%d" % i); ck.count(1, c.key)
    bad = build(ck, d, fs, CXX[i % 2], "c++17", "2021", warn=False)
    if bad: ck.violation("collision/" + c.key, "%s: %s" % bad, fs); return
    q = run([d + "/exe"], timeout=60)
    if q.rc: ck.violation("collision/" + c.key, "exit %s\n%s%s" % (q.rc, q.out, q.err), fs)


def matrix(ck, i, groups):
    """The same declarations in every one of many namespaces."""
    fs = nsmatrix.files("%d/%s/19/m%d" % (SEED, TIER, i), groups); d = os.path.join(ck.dir, "m%d" % i); ck.count(len(nsmatrix.NSS) * 20, ("matrix", i, groups))
    bad = build(ck, d, fs, CXX[i % 2], STDS[i % 4], EDITIONS[i % 3])
    if bad: ck.violation("matrix/" + bad[0], "the same declarations in %d namespaces, %s: %s" % (len(nsmatrix.NSS), "%d bridges" % groups if groups else "one bridge each", bad[1]), fs); return
    q = run([d + "/exe"], timeout=120)
    if q.timeout: raise InfraError("matrix timeout")
    if q.rc: ck.violation("matrix/mixed-up", "%s\nexit %s %s\n%s" % (q.out[-800:], q.rc, q.err[-800:], list(enumerate(nsmatrix.NSS))), fs)
    shutil.rmtree(d, ignore_errors=True)


DIRECT = ["%s", "%s", "[%s; 2]", "[[%s; 2]; 3]", "[[[%s; 1]; 2]; 2]", "[[[[%s; 1]; 1]; 1]; 2]"]
BEHIND = ["Box<%s>", "Vec<%s>", "UniquePtr<%s>", "SharedPtr<%s>", "WeakPtr<%s>", "UniquePtr<CxxVector<%s>>"]

def containment(ck, i):
    """Structs that hold each other directly, in arrays and behind pointers, declared in an order that has nothing to do with it."""
    r = random.Random("%d/%s/19/o%d" % (SEED, TIER, i)); n = r.choice([6, 20, 40]); ns = lambda: r.choice(["", "", "a", "b", "a::b"])
    enums = ["E%d" % k for k in range(3)]; items = ["#[repr(u8)] enum %s { A, B }" % e for e in enums]; plain = set(enums); fns = []; bns = ns(); hdr, hdr2, cxf = [], [], []
    for k in range(n):
        fs = []; simple = r.random() < .5
        pool = [x for x in plain] if simple else enums + ["S%d" % j for j in range(k)]
        for f in range(r.choice([1, 2, 3, 5])):
            y = r.random()
            if y < .25: t = r.choice(["u8", "String", "[u64; 3]", "[[u8; 2]; 2]", "Vec<u8>", "bool"])
            elif y < .75 or simple: t = r.choice(DIRECT) % r.choice(pool)
            else: t = r.choice(BEHIND) % ("S%d" % r.randrange(n))
            fs.append("f%d: %s" % (f, t))
        at = ""
        if simple:
            plain.add("S%d" % k); at = "#[derive(%s)] " % ", ".join(r.sample(["Clone", "Debug", "PartialEq", "Eq", "Hash"], 5))
        x = ns()
        if x and r.random() < .5: at += '#[namespace = "%s"] ' % x
        else: x = ""
        q = x or bns; hdr.append("".join("namespace %s { " % y for y in q.split("::") if y) + "struct S%d;" % k + " }" * len([y for y in q.split("::") if y]))
        cxf.append("fn c%d(x: S%d)%s;" % (k, k, r.choice(["", " -> S%d" % k]))); full = "::" + "::".join([y for y in q.split("::") if y] + ["S%d" % k])
        hdr2.append(("%s c%d(%s);" % (full if "->" in cxf[-1] else "void", k, full)))
        y = r.randrange(6)
        if y == 0: cxf.append("fn d%d(x: &S%d) -> u8;" % (k, k)); hdr2.append("::std::uint8_t d%d(const %s &);" % (k, full))
        if y == 1: cxf.append("fn d%d(x: Pin<&mut T>, y: &mut S%d);" % (k, k)); hdr2.append("void d%d(T &, %s &);" % (k, full))
        if y == 2: cxf.append("fn d%d(x: &[S%d; 3]) -> &S%d;" % (k, k, k)); hdr2.append("const %s &d%d(const ::std::array<%s, 3> &);" % (full, k, full))
        if y == 3: cxf.append("fn d%d(self: &S%d, x: &mut S%d) -> bool;" % (k, k, k))
        if y == 4: cxf.append("fn d%d(self: &mut S%d) -> Result<()>;" % (k, k))
        items.append(at + "struct S%d { %s }" % (k, ", ".join(fs)))
        fns.append("fn m%d(self: &S%d) -> usize;" % (k, k)); fns.append("fn v%d(x: S%d) -> Vec<S%d>;" % (k, k, k))
    # derives on enums that simple structs need
    items = [("#[derive(Debug, Hash)] " if t.startswith("#[repr(u8)]") else "") + t for t in items]
    r.shuffle(fns); cut = len(fns) // 2; items += ['#[namespace = ""] unsafe extern "C++" { include!("u.h"); type T; %s }' % " ".join(cxf), 'extern "Rust" { %s }' % " ".join(fns[:cut]), 'extern "Rust" { %s }' % " ".join(fns[cut:])]; r.shuffle(items)
    text = "#[cxx::bridge%s] pub mod ffi {\n%s\n}\n" % ('(namespace = "%s")' % bns if bns else "", "\n".join(items)); files = {"bridge.rs": text}; ck.count(n, ("containment", i))
    res = units.vgen().gen(text)
    if res[0] != "OK": ck.violation("containment/rejected", "%s\n%s" % (res, text), files); return
    d = os.path.join(ck.dir, "o%d" % i); os.makedirs(d, exist_ok=True)
    src = "#![allow(dead_code)]\n" + text + "".join("impl ffi::S%d { fn m%d(&self) -> usize { std::mem::size_of_val(self) } } fn v%d(x: ffi::S%d) -> Vec<ffi::S%d> { vec![x] }\n" % ((k,) * 5) for k in range(n))
    os.makedirs(d + "/sys", exist_ok=True); open(d + "/sys/u.h", "w").write("#pragma once\n#include <array>\n#include <cstdint>\nstruct T;\n" + "\n".join(hdr + hdr2) + "\n")
    open(d + "/b.rs", "w").write(src); open(d + "/b.h", "w").write(res[1]); open(d + "/b.cc", "w").write(res[2]); open(d + "/h.cc", "w").write('#include "b.h"\n')
    x = rtdeps("none").rustc(d + "/b.rs", d + "/b.rmeta", "lib", ["--emit=metadata", "--crate-name", "b"], timeout=600, edition=EDITIONS[i % 3])
    if x.rc or x.err.strip(): ck.violation("containment/Rust", x.err[:2500], {"b.rs": src}); return
    for f in ("b.cc", "h.cc"):
        q = run([CXX[i % 2], "-std=" + STDS[i % 4], "-fsyntax-only", *units.WARN, "-I", d, "-isystem", cxx_include_dir(), "-isystem", d + "/sys", d + "/" + f], timeout=600)
        if q.timeout: raise InfraError("compile timeout")
        if q.rc or q.err.strip(): ck.violation("containment/C++/" + f, "%s -std=%s\n%s" % (CXX[i % 2], STDS[i % 4], q.err[:2500]), {"b.rs": src, "b.h": res[1], "b.cc": res[2]}); break
    with ck.lock: ck.notes["structs in containment"] = ck.notes.get("structs in containment", 0) + n
    shutil.rmtree(d, ignore_errors=True)


# what one declaration needs of the standard library must be there without any header of the user's
ALONE = ["fn f(x: %s);" % t for t in ("UniquePtr<CxxString>", "&CxxString", "SharedPtr<S>", "WeakPtr<S>", "UniquePtr<CxxVector<u8>>", "&CxxVector<CxxString>", "&CxxVector<i64>", "Vec<String>", "Vec<u8>", "Box<R>", "&str", "&[u16]", "&mut [u8]", "&[S]", "String", "usize", "isize", "i8", "E", "S", "A", "&A", "bool", "Pin<&mut CxxString>", "H", "O", "UniquePtr<S>", "&SharedPtr<S>", "Vec<S>", "&Vec<E>", "&mut Vec<R>")] + \
        ["fn f() -> %s;" % t for t in ("UniquePtr<CxxString>", "SharedPtr<S>", "Vec<u32>", "Box<R>", "&'static str", "String", "usize", "Result<()>", "Result<String>", "Result<UniquePtr<CxxString>>", "S", "A", "E", "&'static [u8]", "Result<Box<R>>")] + ["fn m(self: &R) -> u8;", "fn m(self: &mut R, x: &str);", "fn m(self: &S) -> usize;", "", "type Q; fn f(x: &Q);"]
ALONE_TYPES = {"S": "struct S { x: u8 }", "A": "struct A { x: [u8; 3], y: [[S; 2]; 2] }", "E": "enum E { X, Y }", "H": "#[derive(Hash, PartialEq, Eq)] struct H { x: String }", "O": "#[derive(PartialEq, PartialOrd)] struct O { x: f64 }", "R": None}

def alone(ck, i, decls):
    r = random.Random("%d/%s/19/h%d" % (SEED, TIER, i))
    for k, f in enumerate(decls):
        need = set(re.findall(r"\b[A-Z]\b", f)) & set(ALONE_TYPES)
        if "A" in need: need.add("S")
        # as functions implemented in Rust; and as C++ functions declared by a header that includes nothing but cxx.h
        inc = r.choice(["", "", 'include!("rust/cxx.h");', "include!(<rust/cxx.h>);"])
        if f == "": need = set(r.sample(["S", "E", "H", "O"], r.choice([1, 2])))
        text = "#[cxx::bridge] mod ffi { %s %s extern \"Rust\" { %s %s } }" % (" ".join(ALONE_TYPES[t] for t in sorted(need) if ALONE_TYPES[t]), 'unsafe extern "C++" { %s }' % inc if inc else "", "type R;" if "R" in need else "", ("unsafe " if "'" in f and "'static" not in f else "") + f)
        res = units.vgen().gen(text); d = os.path.join(ck.dir, "h%d_%d" % (i, k)); os.makedirs(d, exist_ok=True)
        if res[0] != "OK": ck.violation("alone/rejected", "%s\n%s" % (res, text), {"bridge.rs": text}); continue
        open(d + "/b.h", "w").write(res[1]); open(d + "/b.cc", "w").write(res[2]); open(d + "/h.cc", "w").write('#include "b.h"\n')
        for c in ([(c, x) for c in CXX for x in STDS] if THOROUGH else [("clang++", "c++11"), ("g++", r.choice(STDS[1:]))]):
            for n in ("b.cc", "h.cc"):
                q = run([c[0], "-std=" + c[1], "-fsyntax-only", *units.WARN, "-I", d, "-isystem", cxx_include_dir(), d + "/" + n], timeout=300); ck.count(1, ("alone", f, n, bool(inc)))
                if q.timeout: raise InfraError("compile timeout")
                if q.rc or q.err.strip(): ck.violation("alone/C++/" + n, "%s -std=%s: %s\n%s" % (c[0], c[1], text, q.err[:2000]), {"bridge.rs": text, "b.h": res[1], "b.cc": res[2]})
        shutil.rmtree(d, ignore_errors=True)


def hygiene(ck, name, items, attrs):
    """A crate whose own items carry the names the expansion uses; a group that fails is split to the items at fault."""
    d = os.path.join(ck.dir, "hyg-" + re.sub(r"\W", "-", name)); os.makedirs(d, exist_ok=True)
    allow = "dead_code, unused_variables, unreachable_code, unknown_lints" + ("" if name.startswith("deny/") else ", unused_macros, non_camel_case_types, non_snake_case, non_upper_case_globals")
    text = lambda sub: "#![allow(%s)]\n" % allow + attrs + "".join(x[1] for x in sub) + hyg.BR + "".join(x[2] for x in sub)
    open(d + "/u.h", "w").close()
    def fails(sub, edition):
        open(d + "/t.rs", "w").write(text(sub))
        q = rtdeps("none").rustc(d + "/t.rs", d + "/t.rmeta", "lib", ["--emit=metadata", "--crate-name", "b"], timeout=600, edition=edition)
        if q.timeout: raise InfraError("rustc timeout")
        return [l for l in q.err.splitlines() if l.startswith("error")] or [q.err[-500:]] if q.rc else None
    for edition in (EDITIONS if THOROUGH else ["2021", "2018"] if name in ("macro", "no_implicit_prelude") else ["2021"]):
        e = fails(items, edition); ck.count(len(items), ("hygiene", name, edition))
        if not e: continue
        bad = [(x, b) for x in items for b in [fails([x], edition)] if b] or [(("all", "", ""), e)]
        for x, b in bad: ck.violation("hygiene/%s/%s" % (name, x[0]), "edition %s: an accepted bridge in a crate with %s %s of its own: %s" % (edition, name, x[0], "; ".join(b[:3])), {"b.rs": text([x] if x[0] != "all" else items)})
    with ck.lock: ck.notes["user names beside a bridge"] = ck.notes.get("user names beside a bridge", 0) + len(items)
    shutil.rmtree(d, ignore_errors=True)


def names(ck, kind, i):
    """Items of one kind under every name that the code generated around them uses itself."""
    d = os.path.join(ck.dir, "nm%d" % i); os.makedirs(d, exist_ok=True); allow = "#![allow(dead_code, unused_variables, unreachable_code, non_camel_case_types, non_snake_case, non_upper_case_globals)]\n"
    def fails(ns):
        rs, h = hyg.named(kind, ns); res = units.vgen().gen(rs)
        if res[0] != "OK": return "rejected: " + str(res[1])[:300], rs
        for f, t in (("t.rs", allow + rs), ("u.h", h), ("b.cc", res[2])): open(d + "/" + f, "w").write(t)
        q = rtdeps("none").rustc(d + "/t.rs", d + "/t.rmeta", "lib", ["--emit=metadata", "--crate-name", "b"], timeout=600, edition="2021")
        c = run([CXX[i % 2], "-std=" + STDS[i % 4], "-fsyntax-only", "-w", "-I", d, "-I", cxx_include_dir(), d + "/b.cc"], timeout=600)
        if q.timeout or c.timeout: raise InfraError("compile timeout")
        e = [l for l in (q.err if q.rc else c.err).splitlines() if "error" in l]
        return ("; ".join(e[:3]) or (q.err + c.err)[-500:], rs) if q.rc or c.rc else None
    ns = hyg.KINDS[kind][0]; e = fails(ns); ck.count(len(ns), ("names", kind))
    for n, x in ([(n, x) for n in ns for x in [fails([n])] if x] or [("all", e)]) if e else []:
        ck.violation("names/%s/%s" % (kind, n), "a %s called %s: %s" % (kind, n, x[0]), {"b.rs": x[1]})
    with ck.lock: ck.notes["names of generated code"] = ck.notes.get("names of generated code", 0) + len(ns)
    shutil.rmtree(d, ignore_errors=True)


def main(ck):
    ck.rule = "an evaluation is one declared item compiled, or called and identified; distinct counts distinct programs and batches by compiler, standard and edition"
    rtdeps("none"); vgen_bin(); r = random.Random("%d/%s/19" % (SEED, TIER)); jobs = []
    for i in range(260 if THOROUGH else 40): jobs.append(lambda i=i: program(ck, i))
    acc = lambda xs: [(x, p) for x in xs for p in ts.POSITIONS if p != "impl" and ts.compilable(x) and ts.verdict(x, p)[0] is None]
    d1 = acc(ts.types(1, odd=False)); d2 = acc([x for x in ts.types(2, odd=False) if x.depth() == 2])
    deep = []
    while len(deep) < (8000 if THOROUGH else 500):
        x = ts.random_type(r, r.choice([3, 4, 5])); p = r.choice(sorted(set(ts.POSITIONS) - {"impl"}))
        if ts.compilable(x) and ts.verdict(x, p)[0] is None and x.depth() > 2: deep.append((x, p))
    items = d1 + (d2 if THOROUGH else r.sample(d2, 1500)) + deep; r.shuffle(items)
    for i in range(0, len(items), 300): jobs.append(lambda i=i: batch(ck, i // 300, items[i:i + 300]))
    for i, c in enumerate(CASES): jobs.append(lambda i=i, c=c: collision(ck, i, c))
    for i, n in enumerate([0, 1, 5, 0, 3, 1] if THOROUGH else [0, 1, 5]): jobs.insert(0, lambda i=i, n=n: matrix(ck, i, n))
    for i in range(200 if THOROUGH else 16): jobs.append(lambda i=i: containment(ck, i))
    for i, k in enumerate(hyg.KINDS): jobs.append(lambda i=i, k=k: names(ck, k, i))
    for g in hyg.groups(): jobs.append(lambda g=g: hygiene(ck, *g))
    al = list(ALONE) * (4 if THOROUGH else 2); r.shuffle(al)
    for i in range(0, len(al), 10): jobs.append(lambda i=i: alone(ck, i, al[i:i + 10]))
    r.shuffle(jobs); pmap(lambda j: j(), jobs)
