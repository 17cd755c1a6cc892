"""C16: size, alignment and field offsets of shared structs, as each compiler sees them."""
from common import *
import units, random

PRIM = "bool u8 u16 u32 u64 usize i8 i16 i32 i64 isize f32 f64".split()
REPR = "u8 i8 u16 i16 u32 i32 u64 i64 usize isize".split()

class Gen:
    """Two bridges; ffi1 reuses types of ffi0 through aliases."""
    def __init__(s, rng, nst):
        s.r, s.out = rng, {"ffi0": [], "ffi1": []}
        s.structs = {"ffi0": [], "ffi1": []}; s.enums = {"ffi0": [], "ffi1": []}
        s.n = nst
    def ty(s, mod, avail, depth=0):
        r = s.r; k = r.randrange(20)
        if k < 7 or depth > 2: return r.choice(PRIM)
        if k < 9: return "[%s; %d]" % (s.elem(mod, avail), r.choice([1, 2, 3, 5, 7, 16, 33]))
        if k < 11 and s.enums[mod]: return r.choice(s.enums[mod])[0]
        if k < 15 and avail: return r.choice(avail)
        return r.choice(["String", "Vec<u8>", "Vec<String>", "Box<R>", "UniquePtr<O>", "UniquePtr<CxxString>", "UniquePtr<CxxVector<u8>>", "SharedPtr<O>", "SharedPtr<u8>", "WeakPtr<O>", "Vec<R>", "Tri", "Tri2",
                         "Vec<%s>" % r.choice(avail) if avail else "String", "&'a str", "&'a [u16]", "&'a mut [u8]", "&'a u8", "&'a O", "Pin<&'a mut O>", "&'a mut R", "&'a CxxString", "&'a [String]"])
    def elem(s, mod, avail):
        r = s.r
        own = [a for a in avail if a.startswith("A" if mod == "ffi0" else "B")]   # arrays of aliased types are not supported
        if own and r.random() < .4: return r.choice(own)
        if s.enums[mod] and r.random() < .3: return r.choice(s.enums[mod])[0]
        return r.choice(PRIM + ["String", "Tri", "Vec<u16>"])
    def build(s):
        r = s.r
        for mod in ("ffi0", "ffi1"):
            decls = []; names = []
            alias = []
            if mod == "ffi1":
                for n, _, lt, ns, cn in s.structs["ffi0"]:
                    if not lt and r.random() < .4: alias.append((n, ns, cn))
            for i in range(r.randrange(2, 6)):
                n = "%sE%d" % ("A" if mod == "ffi0" else "B", i); rep = r.choice(REPR + [None])
                big = {"u8": 200, "i8": -100, "u16": 60000, "i16": -30000, "u32": 4000000000, "i32": -2000000000, "u64": 1 << 62, "i64": -(1 << 62), "usize": 1 << 40, "isize": -(1 << 40), None: r.choice([0, 255, 256, 65536, 1 << 33, -1, -129, -40000, -(1 << 31) - 1])}[rep]
                s.enums[mod].append((n, rep))
                decls.append("%s enum %s { V0 = %d, V1 }" % ("#[repr(%s)]" % rep if rep else "", n, big))
            avail = [a[0] for a in alias]; lts = {}
            for i in range(s.n):
                n = "%sS%d" % ("A" if mod == "ffi0" else "B", i)
                fs = []
                for j in range(r.choice([1, 1, 2, 3, 4, 6, 10])):
                    t = s.ty(mod, [a for a in avail if not lts.get(a)])
                    fs.append(("f%d" % j, t))
                lt = any("'a" in t for _, t in fs)
                lts[n] = lt
                ns = r.choice([None, None, "n1", "n1::n2"]); cn = r.choice([None, None, None, "Renamed" + n])
                at = ("#[namespace = \"%s\"]" % ns if ns else "") + (" #[cxx_name = \"%s\"]" % cn if cn else "")
                ff = []
                for f, t in fs:
                    ff.append(("%s%s: %s" % ("#[cxx_name = \"c_%s\"] " % f if r.random() < .1 else "", f, t)))
                decls.append("%s struct %s%s { %s }" % (at, n, "<'a>" if lt else "", ", ".join(ff)))
                s.structs[mod].append((n, list(zip(fs, ff)), lt, ns, cn)); avail.append(n)
            r.shuffle(decls)
            ext = ["unsafe extern \"C++\" { include!(\"unit.h\"); type O%s; type Tri%s; type Tri2%s; %s fn use_%s(a: &Tri, b: Tri2, c: Tri); }" % (
                ("", " = crate::Tri", " = crate::Tri2", "", mod) if mod == "ffi0" else (" = crate::ffi0::O", " = crate::Tri", " = crate::Tri2",
                 "include!(\"ffi0.rs.h\"); " + " ".join("%s%s type %s = crate::ffi0::%s;" % ("#[namespace = \"%s\"] " % ns if ns else "", "#[cxx_name = \"%s\"] " % cn if cn else "", n, n) for n, ns, cn in alias), mod)),
                "extern \"Rust\" { type R%s; }" % ("" if mod == "ffi0" else "1")]
            if mod == "ffi1": decls = [d.replace("<R>", "<R1>").replace("mut R,", "mut R1,").replace("mut R }", "mut R1 }") for d in decls]
            s.alias = alias
            impls = ["impl UniquePtr<O> {} impl SharedPtr<O> {} impl WeakPtr<O> {} impl Vec<R> {}"] if mod == "ffi0" else ["impl Vec<R1> {}"] + ["impl Vec<%s> {}" % n for n, _, _ in alias if "Vec<%s>" % n not in s.out["ffi0"]]
            s.out[mod] = "#[cxx::bridge]\npub mod %s {\n%s\n}\n" % (mod, "\n".join(ext + decls + impls))
        return s.files()
    def files(s):
        rs, cc = [], []
        nf = 0
        for mod in ("ffi0", "ffi1"):
            for n, rep in s.enums[mod]:
                rs.append('line(d, "%s", std::mem::size_of::<%s::%s>(), std::mem::align_of::<%s::%s>());' % (n, mod, n, mod, n)); cc.append('line(d, "%s", sizeof(%s), alignof(%s));' % (n, n, n))
            for n, fs, lt, ns, cn in s.structs[mod]:
                cpp = ("::" + ns if ns else "") + "::" + (cn or n)
                T = "%s::%s" % (mod, n)
                rs.append('line(d, "%s", std::mem::size_of::<%s>(), std::mem::align_of::<%s>()); line(d, "%s[3]", std::mem::size_of::<[%s; 3]>(), std::mem::align_of::<[%s; 3]>());' % (n, T, T, n, T, T))
                cc.append('line(d, "%s", sizeof(%s), alignof(%s)); line(d, "%s[3]", sizeof(std::array<%s, 3>), alignof(std::array<%s, 3>));' % (n, cpp, cpp, n, cpp, cpp))
                for (f, t), decl in fs:
                    cf = "c_" + f if "cxx_name" in decl else f
                    nf += 1
                    rs.append('fld(d, "%s.%s", std::mem::offset_of!(%s, %s), |s: &%s| std::mem::size_of_val(&s.%s));' % (n, f, T, f, T, f))
                    if t.startswith(("&'a", "Pin<")) and "[" not in t and "str" not in t:
                        cc.append('skip(d, "%s.%s");' % (n, f))   # offsetof is not available for reference members
                    else:
                        cc.append('line(d, "%s.%s", offsetof(%s, %s), sizeof(((%s *)nullptr)->%s));' % (n, f, cpp, cf, cpp, cf))
        s.nf = nf
        unit = '''#![allow(warnings)]
include!("ffi0.rs"); include!("ffi1.rs");
pub struct R { x: u64 } pub struct R1 { x: u8 }
#[repr(C)] pub struct Tri { a: u8, b: u16 } unsafe impl cxx::ExternType for Tri { type Id = cxx::type_id!("Tri"); type Kind = cxx::kind::Trivial; }
#[repr(C)] #[derive(Clone, Copy)] pub struct Tri2 { a: f64, b: u8 } unsafe impl cxx::ExternType for Tri2 { type Id = cxx::type_id!("Tri2"); type Kind = cxx::kind::Trivial; }
fn line(d: &mut String, n: &str, a: usize, b: usize) { d.push_str(&format!(" {} {} {}\\n", n, a, b)) }
fn fld<T>(d: &mut String, n: &str, off: usize, f: impl Fn(&T) -> usize) { let m = std::mem::MaybeUninit::<T>::zeroed(); let _ = off; d.push_str(&format!(" {} {} {}\\n", n, off, size(f))) }
fn size<T>(f: impl Fn(&T) -> usize) -> usize { let m = std::mem::MaybeUninit::<T>::zeroed(); f(unsafe { &*m.as_ptr() }) }
#[no_mangle] pub extern "C" fn rs_layout(out: extern "C" fn(*const u8, usize)) { let mut s = String::new(); let d = &mut s; %s out(s.as_ptr(), s.len()) }
'''.replace("%s", "\n".join(rs))
        h = '''#pragma once
#include "rust/cxx.h"
#include <cstddef>
#include <cstdio>
#include <memory>
#include <string>
#include <vector>
struct O { int x; }; struct Tri { std::uint8_t a; std::uint16_t b; }; struct Tri2 { double a; std::uint8_t b; };
inline void use_ffi0(const Tri &, Tri2, Tri) {} inline void use_ffi1(const Tri &, Tri2, Tri) {}
'''
        main = '''#include "unit.h"
#include "ffi1.rs.h"
#include "ffi0.rs.h"
static std::string rust_side, cxx_side;
extern "C" { void rs_layout(void (*)(const char *, std::size_t)); }
static void line(std::string &d, const char *n, std::size_t a, std::size_t b) { d += std::string(" ") + n + " " + std::to_string(a) + " " + std::to_string(b) + "\\n"; }
static void skip(std::string &d, const char *n) { d += std::string(" ") + n + " ?\\n"; }
int main() { std::string &d = cxx_side;
%s
rs_layout([](const char *p, std::size_t n) { rust_side.assign(p, n); }); printf("RUST\\n%%sCXX\\n%%s", rust_side.c_str(), cxx_side.c_str()); }
''' % "\n".join(cc)
        return {"ffi0.rs": s.out["ffi0"], "ffi1.rs": s.out["ffi1"], "unit.rs": unit, "unit.h": h, "main.cc": main}


def main(ck):
    ck.rule = ("an evaluation is one size/alignment/offset fact (type, array of it, or field) printed by both compilers and compared; "
               "distinct counts distinct (type text, size, alignment) and (field type, offset) pairs")
    n = 60 if THOROUGH else 14
    rtdeps("none"); vgen_bin()
    def one(i):
        rng = random.Random("%d/%s/%d" % (SEED, TIER, i))
        g = Gen(rng, 24 if THOROUGH else 16)
        files = g.build()
        cxx, std = ("clang++", rng.choice(["c++11", "c++14", "c++17", "c++20"])) if i % 3 else ("g++", "c++17")
        try: exe = units.build_plain(files, os.path.join(ck.dir, "u%d" % i), cxx, std)
        except units.BuildFailure as e:
            ck.violation("build/" + e.stage, "a bridge of shared structs does not build: %s\n%s" % (e.stage, e.text), e.files); return
        r = run([exe])
        if r.rc or "CXX\n" not in r.out: ck.violation("run", "layout program ended with %s\n%s" % (r.rc, r.err[:800]), files); return
        a, b = r.out.split("CXX\n"); a = a.split("RUST\n")[1].splitlines(); b = b.splitlines()
        if len(a) != len(b): raise InfraError("layout lines differ in number")
        for x, y in zip(a, b):
            if y.endswith("?"): continue
            f = y.split()
            ck.count(1, (re_key(f[0], g), f[1], f[2]))
            if x != y: ck.violation("layout/" + ("field" if "." in f[0] else "type"), "Rust has '%s' (name, size-or-offset, align-or-size), C++ has '%s'\nin\n%s\n%s" % (x.strip(), y.strip(), files["ffi0.rs"], files["ffi1.rs"]), files)
        ck.sample("%d facts equal, e.g. %s" % (len(a), b[-1].strip()))
    pmap(one, range(n), 4)


def re_key(name, g):
    if "." in name:
        s, f = name.split(".")
        for mod in g.structs:
            for n, fs, *_ in g.structs[mod]:
                if n == s: return dict(x for x, _ in fs)[f]
    return name.split("S")[0].split("E")[0]
