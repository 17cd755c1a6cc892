"""C17: operators and derives of shared types against structs with std derives."""
from common import *
import units, random, re

PRIM = "bool u8 u16 u32 u64 usize i8 i16 i32 i64 isize".split()
REPR = "u8 i8 u16 i16 u32 i32 u64 i64 usize isize".split()
RUST = '''#![allow(warnings)]
use std::fmt::Debug; use std::hash::{Hash, Hasher}; use std::cmp::Ordering;
include!("ffi0.rs");
use ffi0 as ffi;
static mut S0: u64 = 0;
fn rnd() -> u64 { unsafe { S0 = S0.wrapping_add(0x9e3779b97f4a7c15); let mut z = S0; z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9); z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb); z ^ (z >> 31) } }
fn below(n: u64) -> u64 { rnd() % n }
static mut EVALS: u64 = 0; static mut FAILS: u64 = 0; static mut STAT: [u64; 8] = [0; 8];
fn ev(slot: &str, ok: bool, what: impl FnOnce() -> String) { unsafe { EVALS += 1; if !ok { FAILS += 1; if FAILS < 30 { println!("FAIL {} {}", slot, what().replace('\\n', " ")) } } } }
#[derive(Debug, Clone, Default, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct RT { v: u8, s: String }
/// the same value as a type with std derives (R) and as the bridge has it (Self)
trait Cv { type R; fn to(r: &Self::R) -> Self; fn back(&self) -> Self::R; }
trait Mk { fn mk() -> Self; }
macro_rules! prim { ($($t:ty)*) => {$(impl Cv for $t { type R = $t; fn to(r: &$t) -> $t { *r } fn back(&self) -> $t { *self } } impl Mk for $t { fn mk() -> $t { match below(6) { 0 => 0, 1 => 1, 2 => <$t>::MAX, 3 => <$t>::MIN, 4 => <$t>::MAX / 2 + 1, _ => rnd() as $t } } })*} }
prim!{u8 u16 u32 u64 usize i8 i16 i32 i64 isize}
impl Cv for bool { type R = bool; fn to(r: &bool) -> bool { *r } fn back(&self) -> bool { *self } } impl Mk for bool { fn mk() -> bool { below(2) == 0 } }
impl Cv for f32 { type R = f32; fn to(r: &f32) -> f32 { *r } fn back(&self) -> f32 { *self } } impl Mk for f32 { fn mk() -> f32 { [0.0, -0.0, 1.5, f32::NAN, f32::INFINITY, -2.0][below(6) as usize] } }
impl Cv for f64 { type R = f64; fn to(r: &f64) -> f64 { *r } fn back(&self) -> f64 { *self } } impl Mk for f64 { fn mk() -> f64 { [0.0, -0.0, 1.5, f64::NAN, f64::INFINITY, -2.0][below(6) as usize] } }
impl Cv for String { type R = String; fn to(r: &String) -> String { r.clone() } fn back(&self) -> String { self.clone() } } impl Mk for String { fn mk() -> String { ["", "a", "b", "ab", "\\u{e9}", "\\0", "a\\"\\n"][below(7) as usize].to_owned() } }
impl Cv for &'static str { type R = &'static str; fn to(r: &&'static str) -> &'static str { r } fn back(&self) -> &'static str { self } } impl Mk for &'static str { fn mk() -> &'static str { ["", "a", "b", "ab"][below(4) as usize] } }
impl Cv for &'static [u16] { type R = &'static [u16]; fn to(r: &Self) -> Self { r } fn back(&self) -> Self { self } } impl Mk for &'static [u16] { fn mk() -> Self { [&[][..], &[1], &[1, 2], &[2], &[0, 65535]][below(5) as usize] } }
impl<T: Cv> Cv for Vec<T> { type R = Vec<T::R>; fn to(r: &Self::R) -> Self { r.iter().map(T::to).collect() } fn back(&self) -> Self::R { self.iter().map(T::back).collect() } } impl<T: Mk> Mk for Vec<T> { fn mk() -> Self { (0..below(3)).map(|_| T::mk()).collect() } }
impl<T: Cv, const N: usize> Cv for [T; N] { type R = [T::R; N]; fn to(r: &Self::R) -> Self { std::array::from_fn(|i| T::to(&r[i])) } fn back(&self) -> Self::R { std::array::from_fn(|i| self[i].back()) } } impl<T: Mk, const N: usize> Mk for [T; N] { fn mk() -> Self { std::array::from_fn(|_| T::mk()) } }
impl Cv for RT { type R = RT; fn to(r: &RT) -> RT { r.clone() } fn back(&self) -> RT { self.clone() } } impl Mk for RT { fn mk() -> RT { RT { v: below(3) as u8, s: String::mk() } } }
impl<T: Cv> Cv for Box<T> { type R = Box<T::R>; fn to(r: &Self::R) -> Self { Box::new(T::to(r)) } fn back(&self) -> Self::R { Box::new(T::back(self)) } } impl<T: Mk> Mk for Box<T> { fn mk() -> Self { Box::new(T::mk()) } }
/// everything a Hash implementation feeds to its hasher
#[derive(Default)] struct Rec(Vec<u8>);
impl Hasher for Rec { fn finish(&self) -> u64 { 0 } fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b); self.0.push(0xfe) } }
fn rec<T: Hash>(t: &T) -> Vec<u8> { let mut r = Rec::default(); t.hash(&mut r); r.0 }
const N: usize = 6;
/// values that differ in one field: how often the C++ hash did not notice
static mut COLL: Vec<(&'static str, u64, u64)> = Vec::new();
fn coll(k: &'static str, same: bool) { let c = unsafe { &mut *std::ptr::addr_of_mut!(COLL) }; let i = c.iter().position(|x| x.0 == k).unwrap_or_else(|| { c.push((k, 0, 0)); c.len() - 1 }); c[i].1 += 1; c[i].2 += same as u64; }
fn report_coll() { for (k, n, c) in unsafe { &*std::ptr::addr_of!(COLL) } { ev("cxx.hash_ignores", *n < 8 || c * 2 < *n, || format!("{}: std::hash was equal for {} of {} pairs that differ only there", k, c, n)) } }
fn pool<R: Mk>() -> Vec<R> { (0..N).map(|_| R::mk()).collect() }
%s
#[no_mangle] pub extern "C" fn rs_main(seed: u64, iters: u64) -> u64 { for k in 0..iters { unsafe { S0 = seed.wrapping_mul(7919).wrapping_add(k) } %s } unsafe { println!("SUMMARY {} {}", EVALS, FAILS); FAILS } }
'''

class Gen:
    def __init__(s, rng, n, at=0):
        s.r = rng; r = rng
        s.bridge, s.rf, s.rs, s.cc, s.calls = [], [], [], [], []
        s.sig = set()
        s.traits = {}   # type -> derives
        s.enums = []
        for i in range(5): s.enum("E%d" % i, REPR[(at * 5 + i) % len(REPR)])
        for i in range(n): s.struct("S%d" % i)
        s.hdr = []
    def enum(s, n, rep):
        r = s.r
        size = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32}.get(rep, 64)
        lo, hi = (-(1 << size - 1), (1 << size - 1) - 1) if rep[0] == "i" else (0, (1 << size) - 1)
        vals = sorted(set([r.randint(lo, hi) for _ in range(3)] + [lo, hi, hi // 2 + 1, 5]) - {lo if rep == "i64" or rep == "isize" else None})
        r.shuffle(vals)
        names = [["Va", "r#type", "Vc", "Vd", "Ve", "Vf", "Vg"][i] if r.random() < .9 else "Q%d" % i for i in range(len(vals))]
        ds = [d for d in ("Debug", "Clone", "Copy", "PartialEq", "Eq", "Hash") if r.random() < .6]
        if "Copy" in ds and "Clone" not in ds: ds.append("Clone")
        if r.random() < .6: ds += ["PartialOrd"]
        if "PartialOrd" in ds and r.random() < .6: ds += ["Ord"]
        s.derive_text(n, ds)
        s.bridge.append("%s #[repr(%s)] enum %s { %s }" % (s.derive_text(n, ds), rep, n, ", ".join("%s = %d" % x for x in zip(names, vals))))
        s.traits[n] = set(ds) | {"Clone", "Copy", "PartialEq", "Eq"}
        dbg = " ".join("%d => f.write_str(\"%s\")," % (v, m.replace("r#", "")) for m, v in zip(names, vals))
        s.rf.append("#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct %s { pub repr: %s } impl std::fmt::Debug for %s { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { match self.repr { %s x => write!(f, \"%s({})\", x) } } }" % (n, rep, n, dbg, n))
        s.rs.append("impl Cv for ffi::%s { type R = rf::%s; fn to(r: &rf::%s) -> Self { if below(2) == 0 { ffi::%s { repr: r.repr } } else { ffi::inv_%s(r.repr) } } fn back(&self) -> rf::%s { let f = *self; let named = match f { %s _ => None }; if let Some(v) = named { ev(\"enum.pattern\", v == f.repr, || format!(\"{} {}\", v, f.repr)) } rf::%s { repr: f.repr } } }"
                    % (n, n, n, n, n, n, " ".join("ffi::%s::%s => Some(%d)," % (n, m, v) for m, v in zip(names, vals)), n))
        s.rs.append("impl Mk for rf::%s { fn mk() -> Self { rf::%s { repr: match below(4) { 0 => %s::mk(), _ => [%s][below(%d) as usize] } } } }" % (n, n, rep, ", ".join(map(str, vals)), len(vals)))
        s.bridge.append("unsafe extern \"C++\" { fn inv_%s(v: %s) -> %s; fn ops_%s(a: %s, b: %s) -> u32; }" % (n, rep, n, n, n, n))
        ct = {"usize": "std::size_t", "isize": "rust::isize"}.get(rep, "std::" + ("u" if rep[0] == "u" else "") + "int%d_t" % size)
        s.cc.append("%s inv_%s(%s v) { return static_cast<%s>(v); } std::uint32_t ops_%s(%s a, %s b) { return rels(a, b); }" % (n, n, ct, n, n, n, n))
        s.enums.append(n)
        s.emit_tests(n, s.traits[n], True)
    def derive_text(s, n, ds):
        ds = list(ds); s.r.shuffle(ds)
        if not ds: return ""
        if len(ds) > 1 and s.r.random() < .3:
            k = s.r.randrange(1, len(ds)); return "#[derive(%s)] #[derive(%s)]" % (", ".join(ds[:k]), ", ".join(ds[k:]))
        return "#[derive(%s)]" % ", ".join(ds)
    ALL = {"Debug", "Clone", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}
    def ty(s, want, owned=False):
        """A field type with all the traits wanted."""
        r = s.r
        for _ in range(200):
            k = r.randrange(14)
            if k < 4: t, tr = r.choice(PRIM), s.ALL | {"Copy"}
            elif k == 4: t, tr = r.choice(["f32", "f64"]), {"Debug", "Clone", "Default", "PartialEq", "PartialOrd", "Copy"}
            elif k == 5: t, tr = "String", s.ALL
            elif k == 6 and not owned: t, tr = r.choice(["&'a str", "&'a [u16]"]), s.ALL | {"Copy"}
            elif k == 7: t, tr = "Box<RT>", s.ALL
            elif k == 8:
                t, tr = r.choice(PRIM + ["f32", "String"]), s.ALL
                if t == "f32": tr = {"Debug", "Clone", "Default", "PartialEq", "PartialOrd"}
                t = "Vec<%s>" % t
            elif k == 9:
                e, tr = s.ty(want, True)
                if e.startswith(("Vec", "Box", "[")): continue
                t = "[%s; %d]" % (e, r.choice([1, 2, 3]))
            elif k in (10, 11):
                t = r.choice(list(s.traits)); tr = s.traits[t]
                if t in s.lts and owned: continue
            elif k == 12: t, tr = "Vec<RT>", s.ALL
            else:
                t = r.choice(list(s.traits)); tr = s.traits[t] - {"Copy"}
                if t in s.lts: continue
                t = "Vec<%s>" % t
                tr = tr | {"Default"}
            if want <= tr: return t, tr
        return "u8", s.ALL | {"Copy"}
    lts = frozenset()
    def struct(s, n):
        r = s.r
        ds = {d for d in ("Debug", "Clone", "PartialEq", "Hash", "Default", "PartialOrd") if r.random() < .7}
        if "PartialOrd" in ds: ds.add("PartialEq")
        if "Hash" in ds: ds |= {"PartialEq"}
        if "PartialEq" in ds and r.random() < .5: ds.add("Eq")
        if {"Eq", "PartialOrd"} <= ds and r.random() < .6: ds.add("Ord")
        if "Clone" in ds and r.random() < .3: ds.add("Copy")
        fs = [(r.choice(["f%d", "r%d", "z%d"]) % i, s.ty(ds)[0]) for i in range(r.choice([1, 2, 3, 4, 6, 9]))]
        if r.random() < .3: fs.append(("r#type", s.ty(ds)[0]))
        lt = any("'a" in t for _, t in fs) or any(__import__("re").search(r"\b%s\b" % x, t) for x in s.lts for _, t in fs)
        if lt: s.lts = s.lts | {n}
        L = lambda t: __import__("re").sub(r"\bS\d+\b", lambda m: m.group(0) + ("<'a>" if m.group(0) in s.lts else ""), t)
        st = lambda t: t.replace("'a", "'static")
        ns = r.choice([None, None, "n1", "n1::n2"]); cn = r.choice([None, None, "Cxx" + n])
        cpp = ("::" + ns if ns else "") + "::" + (cn or n)
        g = "<'a>" if lt else ""
        order = [d for d in ds]
        s.bridge.append("%s%s %s struct %s%s { %s }" % ('#[namespace = "%s"]' % ns if ns else "", '#[cxx_name = "%s"]' % cn if cn else "", s.derive_text(n, order), n, g, ", ".join("%s: %s" % (f if f != "r#type" else "#[cxx_name = \"typ\"] r#type", L(t)) for f, t in fs)))
        s.rf.append("#[derive(%s)] pub struct %s%s { %s }" % (", ".join(order), n, g, ", ".join("pub %s: %s" % (f, L(t).replace("RT", "crate::RT")) for f, t in fs)))
        sg = "<'static>" if lt else ""
        s.rs.append("impl Cv for ffi::%s%s { type R = rf::%s%s; fn to(r: &Self::R) -> Self { ffi::%s { %s } } fn back(&self) -> Self::R { rf::%s { %s } } }" % (n, sg, n, sg, n, ", ".join("%s: Cv::to(&r.%s)" % (f, f) for f, _ in fs), n, ", ".join("%s: self.%s.back()" % (f, f) for f, _ in fs)))
        s.rs.append("impl Mk for rf::%s%s { fn mk() -> Self { rf::%s { %s } } }" % (n, sg, n, ", ".join("%s: Mk::mk()" % f for f, _ in fs)))
        s.traits[n] = ds
        s.sig.add((tuple(sorted(ds)), tuple(t for _, t in fs)))
        fn = []
        if "PartialEq" in ds or "PartialOrd" in ds: fn.append("fn ops_%s(a: &%s, b: &%s) -> u32;" % (n, n, n)); s.cc.append("std::uint32_t ops_%s(const %s &a, const %s &b) { return %s; }" % (n, cpp, cpp, " | ".join((["eqs(a, b)"] if "PartialEq" in ds else []) + (["ords(a, b)"] if "PartialOrd" in ds else []))))
        if "Hash" in ds: fn.append("fn hash_%s(a: &%s) -> usize;" % (n, n)); s.cc.append("std::size_t hash_%s(const %s &a) { return std::hash<%s>()(a); }" % (n, cpp, cpp))
        if fn: s.bridge.append("unsafe extern \"C++\" { %s }" % " ".join(fn))
        s.emit_tests(n, ds, False, sg, [f for f, _ in fs])
    def emit_tests(s, n, ds, enum, sg="", fields=()):
        b = []
        F, R = "ffi::%s%s" % (n, sg), "rf::%s%s" % (n, sg)
        sl = ("enum" if enum else "struct")
        b.append("let mut ps: Vec<%s> = pool();" % R)
        for f in fields: b.append("{ let s = unsafe { S0 }; let a = <%s>::mk(); unsafe { S0 = s } let mut b = <%s>::mk(); for _ in 0..rnd() %% 50 { rnd(); } b.%s = Mk::mk(); ps.push(a); ps.push(b); }" % (R, R, f))
        b.append("let qs: Vec<%s> = ps.iter().map(Cv::to).collect();" % F)
        if "Hash" in ds:
            for i, f in enumerate(fields): b.append("{ let k = N + %d; if rec(&ps[k]) != rec(&ps[k + 1]) { coll(\"%s.%s\", ffi::hash_%s(&qs[k]) == ffi::hash_%s(&qs[k + 1])) } }" % (2 * i, n, f, n, n))
        show = "format!(\"%s\")" % n
        if "Debug" in ds:
            b.append('for (p, q) in ps.iter().zip(&qs) { ev("%s.debug", format!("{:?}", p) == format!("{:?}", q), || format!("{:?} {:?}", p, q)); ev("%s.debug_alt", format!("{:#?}", p) == format!("{:#?}", q), || format!("{:#?} {:#?}", p, q)); }' % (sl, sl))
            show = "format!(\"%s {:?} {:?}\", p, o)" % n
        if "Clone" in ds and not enum and "PartialEq" in ds and "Debug" in ds: b.append('for (p, q) in ps.iter().zip(&qs) { let c = q.clone(); let back = c.back(); ev("struct.clone", format!("{:?}", p) == format!("{:?}", back), || format!("{:?} {:?}", p, back)) }')
        if "Copy" in ds: b.append('fn copy<T: Copy>(t: &T) -> (T, T) { (*t, *t) } for q in &qs { let _ = copy(q); }')
        if "Default" in ds and "Debug" in ds: b.append('{ let (p, o) = (<%s>::default(), <%s>::default().back()); ev("struct.default", format!("{:?}", p) == format!("{:?}", o), || %s) }' % (R, F, show))
        body = []
        if "PartialEq" in ds:
            body.append('ev("%s.eq", (p == o) == (q == u), || %s); ev("%s.ne", (p != o) == (q != u), || %s);' % (sl, show, sl, show))
        if "PartialOrd" in ds:
            body.append('ev("%s.partial_cmp", p.partial_cmp(o) == q.partial_cmp(u), || %s); ev("%s.lt_le_gt_ge", (p < o, p <= o, p > o, p >= o) == (q < u, q <= u, q > u, q >= u), || %s);' % (sl, show, sl, show))
        if "Ord" in ds: body.append('ev("%s.cmp", p.cmp(o) == q.cmp(u), || %s);' % (sl, show))
        if not enum and ("PartialEq" in ds or "PartialOrd" in ds):
            body.append('let c = ffi::ops_%s(q, u);' % n)
            if "PartialEq" in ds: body.append('ev("cxx.eq_ne", (c & 1 != 0, c & 2 != 0) == (p == o, p != o), || %s);' % show)
            if "PartialOrd" in ds: body.append('ev("cxx.order", (c & 4 != 0, c & 8 != 0, c & 16 != 0, c & 32 != 0) == (p < o, p <= o, p > o, p >= o), || %s);' % show)
        if enum: body.append('let c = ffi::ops_%s(*q, *u); ev("cxx.enum", (c & 1 != 0, c & 2 != 0, c & 4 != 0, c & 8 != 0, c & 16 != 0, c & 32 != 0) == (p == o, p != o, p < o, p <= o, p > o, p >= o), || %s);' % (n, show))
        if "Hash" in ds:
            body.append('let same = rec(p) == rec(o); ev("%s.hash", (rec(q) == rec(u)) == same, || %s);' % (sl, show))
            if not enum: body.append('ev("struct.hash_stream", rec(p) == rec(q), || %s); ev("cxx.hash", !same || ffi::hash_%s(q) == ffi::hash_%s(u), || %s);' % (show, n, n, show))
        if body: b.append("for (p, q) in ps.iter().zip(&qs) { for (o, u) in ps.iter().zip(&qs) { %s } }" % " ".join(body))
        s.rs.append("fn test_%s() { %s }" % (n, "\n".join(b)))
        s.calls.append("test_%s();" % n)
    def files(s):
        b = list(s.bridge); s.r.shuffle(b)
        for n in s.traits:   # a type may be named by a raw identifier
            if s.r.random() < .3: b = [re.sub(r"\b%s\b" % n, "r#" + n, l) for l in b]
        ffi = "#[cxx::bridge]\npub mod ffi0 {\nunsafe extern \"C++\" { include!(\"unit.h\"); }\nextern \"Rust\" { type RT; }\n%s\n}\n" % "\n".join(b)
        unit = RUST.replace("%s", "mod rf {\n%s\n}\n%s" % ("\n".join(s.rf), "\n".join(s.rs)), 1).replace("iters { unsafe { S0 = seed.wrapping_mul(7919).wrapping_add(k) } %s", "iters { unsafe { S0 = seed.wrapping_mul(7919).wrapping_add(k) } " + " ".join(s.calls)).replace("unsafe { println!(\"SUMMARY", "report_coll(); unsafe { println!(\"SUMMARY")
        main = '''#include "ffi0.rs.h"
template <class T> std::uint32_t eqs(const T &a, const T &b) { return (a == b) | (a != b) << 1; }
template <class T> std::uint32_t ords(const T &a, const T &b) { return (a < b) << 2 | (a <= b) << 3 | (a > b) << 4 | (a >= b) << 5; }
template <class T> std::uint32_t rels(const T &a, const T &b) { return eqs(a, b) | ords(a, b); }
%s
extern "C" std::uint64_t rs_main(std::uint64_t, std::uint64_t);
int main(int c, char **v) { return rs_main(std::strtoull(v[1], nullptr, 10), std::strtoull(v[2], nullptr, 10)) ? 1 : 0; }
''' % "\n".join(s.cc)
        decl = "\n".join(re.findall(r"^[^{]*?(?=\) \{)", "", re.M))
        h = ["#pragma once", "#include \"rust/cxx.h\"", "#include <functional>", "#include <cstdlib>"]
        # prototypes for the generated source
        for l in s.bridge:
            m = re.search(r"struct (?:r#)?(S\d+)", l)
            if m:
                n = m.group(1); ns = re.search(r'namespace = "([^"]*)"', l); cn = re.search(r'\)?#?\[cxx_name = "(Cxx\w+)"', l)
                nm = cn.group(1) if cn else n
                h.append(("".join("namespace %s { " % x for x in ns.group(1).split("::")) if ns else "") + "struct %s;" % nm + (" }" * (ns.group(1).count("::") + 1) if ns else ""))
            m = re.search(r"#\[repr\((\w+)\)\] enum (?:r#)?(E\d+)", l)
            if m:
                ct = {"usize": "std::size_t", "isize": "rust::isize"}.get(m.group(1), "std::" + ("u" if m.group(1)[0] == "u" else "") + "int%s_t" % m.group(1)[1:])
                h.append("enum class %s : %s;" % (m.group(2), ct))
        for c in s.cc:
            for m in re.finditer(r"((?:std::\w+|E\d+) \w+\([^)]*\)) \{", c): h.append(m.group(1) + ";")
        return {"ffi0.rs": ffi, "unit.rs": unit, "unit.h": "\n".join(h) + "\n", "main.cc": main}


def main(ck):
    ck.rule = ("an evaluation is one comparison of an operator, hash or derive result of a shared struct/enum (in Rust, or from C++) with the result of a Rust type carrying the standard derives and the same value; "
               "distinct counts distinct (derive set, field types) declarations")
    n = 40 if THOROUGH else 6
    rtdeps("none"); vgen_bin()
    def one(i):
        rng = random.Random("%d/%s/%d" % (SEED, TIER, i))
        g = Gen(rng, 14, i)
        files = g.files()
        try: exe = units.build_plain(files, os.path.join(ck.dir, "u%d" % i), "g++" if i % 3 == 2 else "clang++", rng.choice(["c++14", "c++17", "c++20"]))
        except units.BuildFailure as e:
            ck.violation("build/" + e.stage, "a bridge of shared types with derives does not build: %s\n%s" % (e.stage, e.text), e.files); return
        r = run([exe, str(SEED * 100 + i), str(300 if THOROUGH else 40)], timeout=200)
        for l in r.out.splitlines():
            if l.startswith("FAIL "): ck.violation(l.split()[1], l, files)
            if l.startswith("SUMMARY "): ck.count(int(l.split()[1]))
        if "SUMMARY" not in r.out: ck.violation("crash", "program ended with %s\n%s" % (r.rc, r.err[:1500]), files)
        for x in g.sig: ck.saw(x)
        ck.sample(str(sorted(g.sig)[0]))
    pmap(one, range(n), 4)
