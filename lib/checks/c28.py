"""C28: clients and implementations, compiled against the bridge and against the same signature written in plain Rust."""
from common import *
from compileprobe import Probe, compile_probes
import itertools, random, re, units

# type with lifetime slots @ ; 'ok' = may be returned by value
TYPES = {
    "&@ T": "c", "&@ U": "c", "Pin<&@mut T>": "c", "&@ CxxString": "b", "Pin<&@mut CxxString>": "b", "&@ str": "b", "&@ [u8]": "b", "&@mut [u8]": "b", "&@ [Sh]": "b",
    "&@ R": "b", "&@mut R": "b", "&@ Sh": "b", "&@mut Sh": "b", "&@ Vec<u8>": "b", "&@mut Vec<Sh>": "b", "&@ String": "b", "&@mut String": "b", "&@ u32": "b", "&@mut u32": "b",
    "Lt<@>": "b", "&@ Lt<@>": "b", "&@mut Lt<@>": "b", "&@ Cx<@>": "c", "Pin<&@mut Cx<@>>": "c", "&@ Ru<@>": "b", "&@mut Ru<@>": "b", "Box<Ru<@>>": "b", "Vec<&@ str>": "b", "Vec<Lt<@>>": "b", "&@ UniquePtr<T>": "c", "&@ CxxVector<u8>": "b",
    "Pin<&@mut CxxVector<u8>>": "b", "&@ [&@ str]": "b", "&@ Box<R>": "b", "&@ SharedPtr<Sh>": "b", "UniquePtr<Cx<@>>": "c", "Two<@, @>": "b", "&@ Two<@, @>": "b",
}
PLAIN = ["u8", "usize", "String", "Box<R>", "UniquePtr<T>", "Sh", "SharedPtr<T>", "Vec<u8>", "bool"]
RET_ONLY = ["Result<%s>"]
RECV = {"T": ["&@ T", "Pin<&@mut T>"], "Cx": ["&@ Cx<@>", "Pin<&@mut Cx<@>>"], "Sh": ["&@ Sh", "&@mut Sh"]}
RRECV = {"R": ["&@ R", "&@mut R"], "Ru": ["&@ Ru<@>", "&@mut Ru<@>"], "Sh": ["&@ Sh", "&@mut Sh"], "Lt": ["&@ Lt<@>", "&@mut Lt<@>"]}

TYPEDECLS = """    struct Sh { x: u8 }
    struct Lt<'a> { s: &'a str }
    struct Two<'a, 'b> { s: &'a str, t: &'b str }
"""
CPPTYPES = "type T; type U; type Cx<'a>; "
RUSTTYPES = "pub struct R(u8); pub struct Ru<'a>(&'a u8);"
IMPLS = "impl UniquePtr<T> {} impl UniquePtr<U> {} impl SharedPtr<T> {} impl SharedPtr<Sh> {} impl Vec<Sh> {} impl<'a> Vec<Lt<'a>> {} "


class Sig:
    def __init__(s, r, rust=False):
        s.rust = rust; s.named = r.random() < .5
        s.gens = ["'a", "'b"][:r.choice([1, 2])] if s.named else []
        s.recv = None
        allow = {t for t, k in TYPES.items() if not rust or k == "b"}
        if r.random() < .35:
            d = RRECV if rust else RECV
            s.recv = r.choice(sorted(d)); s.params = [r.choice(d[s.recv])]
        else: s.params = []
        for _ in range(r.choice([0, 1, 1, 2, 2, 3])): s.params.append(r.choice(sorted(allow)) if r.random() < .8 else r.choice([p for p in PLAIN if not (rust and "T" in p)]))
        k = r.random()
        s.ret = "" if k < .15 else r.choice([p for p in PLAIN if not (rust and "T" in p)]) if k < .25 else r.choice(sorted(allow))
        s.result = s.ret != "" and r.random() < .25
        lt = lambda inner: r.choice(s.gens) if s.gens and r.random() < .7 else ("'_" if inner else "")
        s.ptexts = [s.fill(p, lt) for p in s.params]; s.rtext = s.fill(s.ret, lt)
        s.unsafe = s.named or r.random() < .3
    @staticmethod
    def fill(t, lt):
        """Each slot filled by lt(whether it is inside of angle brackets); empty: elided."""
        def put(m):
            if m.group(0) == "@": return lt(True)
            x = lt(False); return "&%s " % x if x else "&"
        return re.sub("&@ ?|@", put, t)
    def generics(s): return "<%s>" % ", ".join(s.gens) if s.gens else ""
    def decl(s, name, bridge=True, where="extern"):
        ps = ["%s: %s" % ("self" if i == 0 and s.recv else "x%d" % i, t) for i, t in enumerate(s.ptexts)]
        ret = s.rtext if not s.result else ("Result<%s>" % s.rtext if bridge else "Result<%s, cxx::Exception>" % s.rtext)
        return "%sfn %s%s(%s)%s" % ("unsafe " if s.unsafe else "", name, s.generics(), ", ".join(ps), " -> " + ret if ret else "")
    def key(s): return s.decl("f")


def valid_native(ck, sigs, name):
    """Which signatures does Rust itself accept (elision)?"""
    ps = [Probe("native", "use crate::*; " + native(s, i), True) for i, s in enumerate(sigs)]
    compile_probes(ck, name, ps, PRELUDE_TYPES)
    return [s for s, p in zip(sigs, ps) if not p.err]


def native(s, i):
    if s.recv: return "impl%s %s { pub %s { loop {} } }" % ({"Cx": "<'cx>", "Ru": "<'cx>", "Lt": "<'cx>"}.get(s.recv, ""), {"Cx": "Cx<'cx>", "Ru": "Ru<'cx>", "Lt": "Lt<'cx>"}.get(s.recv, s.recv), selfed(s).decl("n%d" % i, False))
    return "pub %s { loop {} }" % s.decl("n%d" % i, False)


class selfed:
    """The receiver's type written as in an impl."""
    def __init__(s, g): s.g = g
    def decl(s, name, bridge): return s.g.decl(name, bridge)


PRELUDE_TYPES = "#![allow(warnings)] pub use cxx::{CxxString, CxxVector, UniquePtr, SharedPtr}; pub use std::pin::Pin; pub use crate::ffi::*; %s #[cxx::bridge] pub mod ffi { %s extern \"Rust\" { type R; type Ru<'a>; } unsafe extern \"C++\" { %s } %s }" % (RUSTTYPES, TYPEDECLS.replace("\n", " "), CPPTYPES, IMPLS)


def accepted(s, block):
    """Does the generator take the declaration?"""
    src = "#[cxx::bridge] mod ffi { %s extern \"Rust\" { type R; type Ru<'a>; %s } unsafe extern \"C++\" { %s %s } %s }" % (TYPEDECLS, s.decl("f") + ";" if block == "Rust" else "", CPPTYPES, s.decl("f") + ";" if block == "C++" else "", IMPLS)
    return units.vgen().gen(src)[0] == "OK"


def slots(t): return len(re.findall("@", t))


def inst(t, names):
    """The type with the given lifetimes in its slots."""
    it = iter(names); return Sig.fill(t, lambda inner: next(it))


def clients(r, s, call, n):
    """Functions over the signature: each asks for one relation between lifetimes, or one use."""
    ks, names, out = 0, [], []
    for t in s.params:
        k = slots(t); names.append(["'l%d" % (ks + j) for j in range(k)]); ks += k
    alll = [x for l in names for x in l]; rn = slots(s.ret)
    args = ", ".join("x%d" % i for i in range(len(s.params)))
    ps = ", ".join("x%d: %s" % (i, inst(t, l)) for i, (t, l) in enumerate(zip(s.params, names)))
    def fn(bounds, ret, body, unsafe=True):
        return "use crate::*; fn c%s(%s)%s%s { %s }" % ("<%s>" % ", ".join(alll) if alll else "", ps, " -> " + ret if ret else "", " where " + ", ".join(bounds) if bounds else "", body)
    okcall = "%s%s" % (call(args, s), ".unwrap()" if s.result else "")
    u = lambda b: "unsafe { %s }" % b
    cand = []
    if s.ret:
        for l in itertools.product(alll + ["'static"], repeat=rn): cand.append(((), l))
        for a in alll:
            for b in alll:
                if a != b:
                    for l in itertools.product(alll, repeat=rn): cand.append((("%s: %s" % (a, b),), l))
    if len(cand) > n: cand = cand[:1] + r.sample(cand, n - 1)
    for bounds, l in cand: out.append(("relation", fn(bounds, inst(s.ret, l), u(okcall))))
    out.append(("unsafety", fn((), "", "let _ = %s;" % call(args, s))))
    out.append(("call", fn((), "", u("let _ = %s;" % call(args, s)))))
    # one source at a time, ended or used again while the result is held
    for i, t in enumerate(s.params):
        if not slots(t): continue
        m = re.fullmatch(r"(?:(&@mut |&@ )(.*)|(Pin<&@mut )(.*)>)", t)
        if not m: continue
        ref, inner = m.group(1) or m.group(3), m.group(2) or m.group(4)
        owner, borrow = {"str": ("String", "&*o"), "[u8]": ("Vec<u8>", "&mut *o" if "mut" in ref else "&*o"), "[Sh]": ("Vec<Sh>", "&*o"), "[&@ str]": ("Vec<&'static str>", "&*o")}.get(inner, (None, None))
        if owner is None:
            owner = inst(inner, ["'static"] * slots(inner))
            cpp = inner in ("T", "U", "CxxString", "Cx<@>", "CxxVector<u8>")
            if cpp: owner = "UniquePtr<%s>" % owner; borrow = "o.pin_mut()" if "mut" in ref else "&*o"
            else: borrow = ("&mut o" if "mut" in ref else "&o")
        rest = [(j, p) for j, p in enumerate(s.params) if j != i]
        ps2 = ", ".join(["mut o: " + owner] + ["x%d: %s" % (j, inst(p, ["'static"] * slots(p))) for j, p in rest])
        a2 = ", ".join(borrow if j == i else "x%d" % j for j in range(len(s.params)))
        c2 = call(a2, s)
        for act in ("drop(o);", "let _ = &o;", "let _ = &mut o;", "fn k<X>(_: &mut X) {} k(&mut o);", "fn k<X>(_: &X) {} k(&o);"):
            if r.random() < .5: out.append(("held", "use crate::*; fn keep<X>(_: X) {} fn c(%s) { let v = unsafe { %s }; %s keep(v); }" % (ps2, c2, act)))
        # wrong mutability of the owner's borrow
        if "mut" in ref and not borrow.startswith("o."): out.append(("mutability", "use crate::*; fn c(%s) { unsafe { %s }; }" % (ps2, call(", ".join("&o" if j == i else "x%d" % j for j in range(len(s.params))), s))))
    # the same thing twice
    for i, j in itertools.combinations(range(len(s.params)), 2):
        if s.params[i] == s.params[j] and s.params[i].startswith("&@mut ") and slots(s.params[i]) == 1:
            others = [(k, p) for k, p in enumerate(s.params) if k not in (i, j)]; t = s.params[i][6:]
            if t == "[u8]": continue
            out.append(("alias", "use crate::*; fn c(%s) { unsafe { %s }; }" % (", ".join(["o: &mut " + t] + ["x%d: %s" % (k, inst(p, ["'static"] * slots(p))) for k, p in others]), call(", ".join("&mut *o" if k in (i, j) else "x%d" % k for k in range(len(s.params))), s))))
    return out


def cxx_functions(ck, i, nsig, per):
    """Functions bound from C++: every client compiles against the bridge iff it does against plain Rust."""
    r = random.Random("%d/%s/cxx/%d" % (SEED, TIER, i)); sigs = [Sig(r) for _ in range(nsig)]
    sigs = [s for s in valid_native(ck, sigs, "c%d-valid" % i) if accepted(s, "C++")]
    bridge = "#[cxx::bridge] pub mod ffi { %s extern \"Rust\" { type R; type Ru<'a>; } unsafe extern \"C++\" { %s %s } %s }" % (TYPEDECLS.replace("\n", " "), CPPTYPES, " ".join(s.decl("f%d" % k) + ";" for k, s in enumerate(sigs)), IMPLS)
    prelude = "#![allow(warnings)] pub use cxx::{CxxString, CxxVector, UniquePtr, SharedPtr}; pub use std::pin::Pin; pub use crate::ffi::*; %s\n%s\n%s" % (RUSTTYPES, bridge, "\n".join(native(s, k) for k, s in enumerate(sigs)))
    try: compile_probes(ck, "c%d-bridge" % i, [Probe("none", "", True)], prelude)
    except InfraError as e: ck.violation("bridge-rejected", "a bridge whose signatures Rust accepts does not compile: %s" % e, {"bridge.rs": prelude}); return
    ps = []
    for k, s in enumerate(sigs):
        def call(which):
            def f(args, s):
                if s.recv: a = args.split(", ", 1); return "%s.%s%d(%s)" % (a[0] if re.fullmatch(r"x0", a[0]) else "(%s)" % a[0], which, k, a[1] if len(a) > 1 else "")
                return "%s%d(%s)" % (which, k, args)
            return f
        st = r.getstate(); a = clients(r, s, call("f"), per); r.setstate(st); b = clients(r, s, call("n"), per)
        for (kind, x), (_, y) in zip(a, b): ps.append((s, kind, Probe("cxx/" + kind, x, True), Probe("native/" + kind, y, True)))
    compile_probes(ck, "c%d" % i, [p for _, _, x, y in ps for p in (x, y)], prelude)
    judge(ck, "C++", ps)


def judge(ck, lang, ps):
    n = ck.notes.setdefault("compared", {})
    for s, kind, x, y in ps:
        ck.count(1, (lang, kind, bool(y.err), tuple(sorted(set(re.findall(r"\w+", s.ret)))), s.named))
        with ck.lock: k = "%s %s %s" % (lang, kind, "refused" if y.err else "accepted"); n[k] = n.get(k, 0) + 1
        if bool(x.err) != bool(y.err):
            if lang == "Rust" and x.err and re.search(r"&'(\w+) \[&'(?!\1\b)\w+ ", s.decl("f")) and "lifetime may not live long enough" in x.err:
                ck.violation("Rust/slice-implied-bound", "%s: %s" % (s.decl("f"), x.err), {"bridge.rs": x.text, "native.rs": y.text}); continue
            ck.violation("%s/%s/%s" % (lang, kind, "accepted" if y.err else "rejected"), "%s is %s, but in plain Rust %s\n%s\n%s" % (s.decl("f"), "rejected: %s" % x.err if x.err else "accepted", "it is rejected: %s" % y.err if y.err else "accepted", x.text, y.text), {"bridge.rs": x.text, "native.rs": y.text})


def variants(r, s):
    """Implementations that may or may not fit the declaration."""
    out = [("same", s, s.unsafe)]
    def copy(): t = Sig.__new__(Sig); t.__dict__.update(s.__dict__); t.params, t.ptexts, t.gens = list(s.params), list(s.ptexts), list(s.gens); return t
    out.append(("unsafety", s, not s.unsafe))
    # other lifetimes
    for _ in range(3):
        t = copy(); t.gens = ["'a", "'b"]; lt = lambda inner: r.choice(["'a", "'b", "'static", "'_" if inner else ""])
        t.ptexts = [Sig.fill(p, lt) for p in t.params]; t.rtext = Sig.fill(t.ret, lt); out.append(("lifetimes", t, s.unsafe))
    t = copy(); t.gens = ["'a"]; t.ptexts = [Sig.fill(p, lambda i: "'a") for p in t.params]; t.rtext = Sig.fill(t.ret, lambda i: "'a"); out.append(("lifetimes", t, s.unsafe))
    # other mutability, other types
    for i, p in enumerate(s.params):
        t = copy()
        if "mut" in p and not p.startswith("Pin"): t.params[i] = p.replace("@mut", "@ ")
        elif p.startswith("&@ ") : t.params[i] = p.replace("&@ ", "&@mut ", 1)
        elif p in PLAIN: t.params[i] = r.choice([q for q in PLAIN if q != p and "T" not in q])
        else: continue
        t.ptexts[i] = Sig.fill(t.params[i], lambda inner: "'_" if inner else "")
        out.append(("argument", t, s.unsafe))
    t = copy(); t.ret = r.choice([x for x in PLAIN if "T" not in x] + ["&@ str", "&@mut u32", ""]); t.rtext = Sig.fill(t.ret, lambda inner: r.choice(t.gens) if t.gens else ""); out.append(("return", t, s.unsafe))
    if s.result: t = copy(); t.result = False; out.append(("result", t, s.unsafe))
    elif s.ret: t = copy(); t.result = True; out.append(("result", t, s.unsafe))
    return out


def rust_functions(ck, i, nsig):
    """Functions implemented in Rust: an implementation is accepted iff a wrapper of the declared signature can call it."""
    r = random.Random("%d/%s/rust/%d" % (SEED, TIER, i)); sigs = [Sig(r, True) for _ in range(nsig)]
    sigs = [s for s in valid_native(ck, sigs, "r%d-valid" % i) if accepted(s, "Rust")]
    ps = []
    types = RUSTTYPES + " use cxx::{CxxString, CxxVector, UniquePtr, SharedPtr}; use std::pin::Pin; "
    for k, s in enumerate(sigs):
        for kind, t, uns in variants(r, s):
            u = t.unsafe; t2 = Sig.__new__(Sig); t2.__dict__.update(t.__dict__); t2.unsafe = uns
            d = t2.decl("g%d" % k, False).replace("cxx::Exception", "String")
            gl = {"Ru": "<'cx>", "Lt": "<'cx>"}.get(s.recv, "")
            impl = "impl%s %s%s { pub %s { loop {} } }" % (gl, s.recv, gl, d) if s.recv else "pub %s { loop {} }" % d
            bridge = "#[cxx::bridge] pub mod ffi { %s extern \"Rust\" { type R; type Ru<'a>; %s; } impl Vec<Sh> {} impl<'a> Vec<Lt<'a>> {} impl SharedPtr<Sh> {} }" % (TYPEDECLS.replace("\n", " "), s.decl("g%d" % k))
            plain = "#[cxx::bridge] pub mod ffi { %s extern \"Rust\" { type R; type Ru<'a>; } impl Vec<Sh> {} impl<'a> Vec<Lt<'a>> {} impl SharedPtr<Sh> {} }" % TYPEDECLS.replace("\n", " ")
            args = ", ".join("self" if j == 0 and s.recv else "x%d" % j for j in range(len(s.params))); callee = ("%s::g%d(%s)" if s.recv else "g%d(%s)")
            callee = callee % ((s.recv, k, args) if s.recv else (k, args))
            wd = s.decl("w", False).replace("Result<%s, cxx::Exception>" % s.rtext, "Result<%s, String>" % s.rtext)
            wrapper = wrap(s, wd, callee)
            if s.recv: wrapper = "impl%s %s%s { %s }" % (gl, s.recv, gl, wrapper)
            ps.append((s, kind, Probe("rust/" + kind, types + "use ffi::{Sh, Lt, Two}; " + impl + " " + bridge, True), Probe("native/" + kind, types + "use ffi::{Sh, Lt, Two}; " + impl + " " + plain + " " + wrapper, True)))
    compile_probes(ck, "r%d" % i, [p for _, _, x, y in ps for p in (x, y)], "#![allow(warnings)]")
    judge(ck, "Rust", ps)


def implied_bound(ck):
    """A bound implied only by a slice argument, which the shim passes as a RustSlice."""
    t = "pub struct R(u8); #[cxx::bridge] pub mod ffi { struct Lt<'a> { s: &'a str } extern \"Rust\" { unsafe fn g<'a, 'b>(x0: &'a [%s], x1: &'a mut Lt<'a>); } } use ffi::Lt; pub unsafe fn g<'a, 'b>(x0: &'a [%s], x1: &'a mut Lt<'a>) { loop {} }"
    bad, good = Probe("rust/implied", t.replace("%s", "&'b str"), True), Probe("rust/implied-ok", t.replace("%s", "&'a str"), True)
    compile_probes(ck, "implied", [bad, good], "#![allow(warnings)]"); ck.count(2, ("implied", bool(bad.err)))
    if bad.err: ck.violation("Rust/slice-implied-bound", "fn g<'a, 'b>(&'a [&'b str], &'a mut Lt<'a>): %s" % bad.err, {"bridge.rs": bad.text})
    if good.err: ck.violation("Rust/implied-bound-neighbour", good.err, {"bridge.rs": good.text})


def declaration_rules(ck):
    """The rules about declarations on which the safety of clients rests, in many shapes: unsafety that must be written, and mutable results that must have a source."""
    import c20rules; from checks.c20 import assemble
    r = random.Random(SEED)
    for key, gen, bad, good in c20rules.R:
        if not (key.startswith(("mut-return/", "unsafe-block/", "rust-lifetime")) or key == "fn/cxx/fnptr-ptr"): continue
        for k in range(1 + (40 if THOROUGH else 3 if key.startswith("mut-return/") else 12)):
            for what, items in (("unsound", bad), ("sound", good)):
                if not items: continue
                text, _ = assemble(r, items, k > 0); res = units.vgen().gen(text); ck.count(1, ("rule", key, what, k))
                if (res[0] == "OK") == (what == "unsound"): ck.violation("declaration/%s/%s" % (what, key), "%s: a%s declaration is %s" % (text, "n unsound" if what == "unsound" else " sound", "accepted" if res[0] == "OK" else "rejected: %s" % (res,)), {"bridge.rs": text})


def wrap(s, wd, callee):
    # how the result is turned into a Result does not matter here: any error type that can be displayed will do
    if s.result:
        head = wd[:wd.rindex(" -> ")]; return "%s -> %s { fn ok<X, E: std::fmt::Display>(r: Result<X, E>) -> X { loop {} } ok(%s) }" % (head, s.rtext, callee)
    return "%s { %s }" % (wd, callee)


def main(ck):
    ck.rule = ("an evaluation is one client or implementation compiled against the bridge and against the same signature in plain Rust, the verdicts of the compiler being compared; "
               "distinct counts distinct (side, kind of question, answer, words of the return type, named lifetimes)")
    rtdeps("none"); vgen_bin()
    implied_bound(ck); declaration_rules(ck)
    jobs = [(cxx_functions, (i, 60, 14)) for i in range(60 if THOROUGH else 8)] + [(rust_functions, (i, 60)) for i in range(60 if THOROUGH else 8)]
    pmap(lambda j: j[0](ck, *j[1]), jobs)
