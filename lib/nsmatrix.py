"""One and the same set of declarations in every one of many namespaces that look alike; each knows its number."""
import itertools, random

NSS = [t for n in range(4) for t in itertools.product("ab", repeat=n)] + [("a_b",), ("ab",), ("A",), ("a", "b_a"), ("a_b", "a"), ("aa", "b"), ("b", "a", "b", "a"), ("a", "b", "a", "b")]


def files(seed, groups):
    """groups: how many bridges the namespaces are spread over; 0: a bridge for each."""
    r = random.Random(seed); order = list(range(len(NSS))); r.shuffle(order)
    bs = [[k] for k in order] if not groups else [order[i::groups] for i in range(groups)]
    fs = {}; go = []; inc = ""; types = ""; checks = ""
    for k, ns in enumerate(NSS):
        o, c = "".join("namespace %s { " % n for n in ns), " }" * len(ns)
        types += o + """struct O { O() { ++made[%(k)d]; } O(const O &) { ++made[%(k)d]; } ~O() { ++gone[%(k)d]; } std::uint32_t oget() const { return %(k)d; } std::uint32_t ocb(rust::Fn<std::uint32_t(std::uint32_t)> f, rust::Fn<std::uint32_t(std::uint32_t)> g) const { return f(%(k)d) + g(%(k)d); } void oset(std::uint32_t x) { made[%(k)d] += x; gone[%(k)d] += x; ++sets[%(k)d]; } };
inline std::uint32_t cf() { return %(k)d; } inline std::unique_ptr<O> mko() { return std::unique_ptr<O>(new O); } inline std::shared_ptr<O> sho() { return std::make_shared<O>(); }
inline std::unique_ptr<std::vector<O>> veco() { return std::unique_ptr<std::vector<O>>(new std::vector<O>(%(n)d)); } inline std::uint32_t cb(rust::Fn<std::uint32_t(std::uint32_t)> f) { return f(%(k)d); }
inline std::uint32_t who(const std::weak_ptr<O> &w) { auto p = w.lock(); return p ? p->oget() : 1000; }
inline void cfail() { throw std::runtime_error("%(k)d"); }""" % dict(k=k, n=k % 5 + 1) + c + "\n"
        q = "::" + "::".join(ns + ("",)) if ns else "::"
        checks += "static int chk%(k)d() { int e = 0; if (%(q)srf() != %(k)d) e |= 1; { auto x = %(q)smk(); if (x->get() != %(k)d) e |= 2; auto v = %(q)svec(); if (v.size() != %(n)d || v[v.size() - 1].get() != %(k)d) e |= 4; }\n  { %(q)sS s = %(q)smks(); if (s.v != %(k)d || s.sget() != %(k)d || !(s == s)) e |= 8; auto v = %(q)svecs(); std::uint32_t t = 0; for (auto &x : v) t += x.v; if (v.size() != %(n)d || t != %(n)d * %(k)d) e |= 16; }\n  try { %(q)sfail(); e |= 32; } catch (const rust::Error &x) { if (std::string(x.what()) != \"%(k)d\") e |= 64; }\n  if (%(q)sE::V%(k)d != static_cast<%(q)sE>(%(k)d)) e |= 128; return e; }\n" % dict(k=k, q=q, n=k % 4 + 2)
    for i, ks in enumerate(bs):
        single = len(ks) == 1; own = NSS[r.choice(ks)] if not single or True else (); own = NSS[ks[0]] if single else own
        items, rust = [], []
        for k in ks:
            ns = NSS[k]; suf = "" if single else "_%d" % k
            def at(name, decl, ns=ns, suf=suf):
                """The declaration with its namespace and name."""
                return ("" if ns == own else '#[namespace = "%s"] ' % "::".join(ns)) + ('#[cxx_name = "%s"] ' % name if suf else "") + decl.replace("@", suf)
            extra = "w: u64, " if k % 2 else ""
            shared = [at("S", "#[derive(PartialEq, Clone)] struct S@ { v: u32, %s}" % extra), at("E", "#[repr(u8)] enum E@ { V%d = %d }" % (k, k))]
            rs = [at("R", "type R@;"), at("rf", "fn rf@() -> u32;"), at("mk", "fn mk@() -> Box<R@>;"), at("vec", "fn vec@() -> Vec<R@>;"), at("mks", "fn mks@() -> S@;"), at("vecs", "fn vecs@() -> Vec<S@>;"), at("fail", "fn fail@() -> Result<()>;"),
                  "fn get(self: &R%s) -> u32;" % suf, "fn sget(self: &S%s) -> u32;" % suf]
            cs = [at("O", "type O@;"), at("cf", "fn cf@() -> u32;"), at("mko", "fn mko@() -> UniquePtr<O@>;"), at("sho", "fn sho@() -> SharedPtr<O@>;"), at("veco", "fn veco@() -> UniquePtr<CxxVector<O@>>;"), at("cb", "fn cb@(f: fn(u32) -> u32) -> u32;"), at("who", "fn who@(w: &WeakPtr<O@>) -> u32;"), at("cfail", "fn cfail@() -> Result<()>;"),
                  "fn oget(self: &O%s) -> u32;" % suf, "fn ocb(self: &O%s, f: fn(u32) -> u32, g: fn(u32) -> u32) -> u32;" % suf, "fn oset(self: Pin<&mut O%s>, x: u32);" % suf, "include!(\"u.h\");"]
            for l in (rs, cs): r.shuffle(l)
            items += shared + ['extern "Rust" { %s }' % " ".join(rs), 'unsafe extern "C++" { %s }' % " ".join(cs)]
            f = dict(k=k, s=suf, n=k % 4 + 2, m=k % 5 + 1, w="w: 1 << 63" if extra else "")
            rust.append("pub struct R%(s)s(u32, [u8; %(k)d]); impl R%(s)s { fn get(&self) -> u32 { self.0 } } impl ffi::S%(s)s { fn sget(&self) -> u32 { self.v } } fn rf%(s)s() -> u32 { %(k)d } fn mk%(s)s() -> Box<R%(s)s> { Box::new(R%(s)s(%(k)d, [0; %(k)d])) } fn vec%(s)s() -> Vec<R%(s)s> { (0..%(n)d).map(|_| *mk%(s)s()).collect() } fn mks%(s)s() -> ffi::S%(s)s { ffi::S%(s)s { v: %(k)d, %(w)s } } fn vecs%(s)s() -> Vec<ffi::S%(s)s> { vec![mks%(s)s(); %(n)d] } fn fail%(s)s() -> Result<(), u32> { Err(%(k)d) }\n"
                        "pub fn go%(s)s() { fn twice(x: u32) -> u32 { x * 100 + %(k)d } assert_eq!(ffi::cf%(s)s(), %(k)d); fn other(x: u32) -> u32 { x + 7 } let mut o = ffi::mko%(s)s(); assert_eq!(o.oget(), %(k)d); assert_eq!(o.ocb(twice, other), %(k)d * 102 + 7); o.pin_mut().oset(%(k)d); let p = ffi::sho%(s)s(); let w = p.downgrade(); let p2 = p.clone(); drop(p); assert_eq!(w.upgrade().oget(), %(k)d); assert_eq!(ffi::who%(s)s(&w), %(k)d); drop(p2); assert!(w.upgrade().is_null()); assert_eq!(ffi::who%(s)s(&w.clone()), 1000); let v = ffi::veco%(s)s(); assert_eq!(v.len(), %(m)d); assert_eq!(v.get(%(m)d - 1).unwrap().oget(), %(k)d); assert_eq!(ffi::cb%(s)s(twice), %(k)d * 101); assert_eq!(ffi::cfail%(s)s().unwrap_err().what(), \"%(k)d\"); }" % f)
            go.append("ffi%d::go%s();" % (i, suf))
        r.shuffle(items)
        fs["ffi%d.rs" % i] = "#[cxx::bridge%s] pub mod ffi {\n%s\n}\n%s\n" % ('(namespace = "%s")' % "::".join(own) if own else "", "\n".join(items), "\n".join(rust))
        inc += '#include "ffi%d.rs.h"\n' % i
    n = len(NSS)
    fs["u.h"] = '#pragma once\n#include "rust/cxx.h"\n#include <cstdint>\n#include <memory>\n#include <stdexcept>\n#include <string>\n#include <vector>\nextern std::uint32_t made[%d], gone[%d], sets[%d];\n' % (n, n, n) + types
    fs["u.cc"] = '#include "u.h"\nstd::uint32_t made[%d], gone[%d], sets[%d];\n' % (n, n, n)
    fs["main.cc"] = '#include "u.h"\n#include <cstdio>\n' + inc + checks + 'extern "C" void pull(); int main() { pull(); int bad = 0; int (*all[])() = {%s}; for (int k = 0; k < %d; ++k) { int e = all[k](); if (e || made[k] != gone[k] || sets[k] != 1) { std::printf("namespace %%d: %%x %%u %%u %%u\\n", k, e, made[k], gone[k], sets[k]); bad = 1; } } return bad; }\n' % (", ".join("chk%d" % k for k in range(n)), n)
    fs["unit.rs"] = "#![allow(dead_code, non_camel_case_types)]\n#[unsafe(no_mangle)] pub extern \"C\" fn pull() { %s }\n%s" % (" ".join(go), "".join("pub mod ffi%d; " % i for i in range(len(bs))))
    return fs
