"""C31: documentation, attributes and header names written in a bridge carry over and change nothing else."""
from common import *
from bscript import *
import json, os, random, re, shutil, units

# ---- the bridge, with a slot before everything that can be documented ----------
# slot -> what follows it; the bridge and its hand-written twin have the same slots
BRIDGE = [
    ("mod", "#[cxx::bridge(namespace = \"ns\")]\npub mod ffi {"),
    ("S", "#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)] pub struct S {"), ("S.a", "pub a: u32,"), ("S.b", "pub b: String,"), ("S.c", "pub c: u8,"), (None, "}"),
    ("P", "#[derive(Copy, Clone)] pub struct P {"), ("P.x", "pub x: f64,"), (None, "}"),
    ("L", "pub struct L<'a> {"), ("L.s", "pub s: &'a str,"), (None, "}"),
    ("E", "#[repr(u8)] #[derive(Debug, Hash, PartialOrd, Ord)] pub enum E {"), ("E.A", "A,"), ("E.B", "B = 7,"), ("E.C", "C,"), (None, "}"),
    (None, "extern \"Rust\" {"),
    ("R", "type R;"), ("R.rm", "fn rm(self: &R) -> u32;"), ("R.rn", "fn rn(self: &mut R, s: &str) -> Result<String>;"),
    ("rf", "fn rf(s: &S, e: E) -> u32;"), ("rg", "#[cxx_name = \"g\"] fn rg(x: Vec<u8>) -> Box<R>;"), ("S.sm", "fn sm(self: &S, k: u8) -> u64;"), ("S.sn", "fn sn(self: &mut S);"),
    (None, "}"),
    (None, "unsafe extern \"C++\" {"), (None, "include!(\"u.h\");"),
    ("C", "pub type C;"), ("C.cm", "pub fn cm(self: &C) -> u32;"), ("C.cn", "pub fn cn(self: Pin<&mut C>, s: &str) -> Result<u32>;"), ("C.cr", "pub fn cr<'a>(self: &'a C, l: &L<'a>) -> &'a C;"),
    ("Al", "pub type Al = crate::o::Other;"), ("cf", "pub fn cf(s: &S, e: E) -> u32;"), ("cg", "#[cxx_name = \"cg_\"] pub fn cg(p: P) -> UniquePtr<C>;"), ("ch", "pub fn ch(v: &CxxVector<S>) -> Result<String>;"), ("S.sc", "pub fn sc(self: &S) -> u8;"),
    (None, "}"),
    (None, "impl UniquePtr<C> {}"),
    (None, "}"),
]
OUTSIDE = """
pub struct R(pub u32);
impl R { fn rm(&self) -> u32 { self.0 } fn rn(&mut self, s: &str) -> Result<String, std::fmt::Error> { Ok(s.to_owned()) } }
fn rf(s: &ffi::S, e: ffi::E) -> u32 { s.a + u32::from(e.repr) }
fn rg(x: Vec<u8>) -> Box<R> { Box::new(R(x.len() as u32)) }
impl ffi::S { fn sm(&self, k: u8) -> u64 { u64::from(k) } fn sn(&mut self) { } }
"""
OTHER = """
pub struct W<T>(pub T);
pub mod o { pub struct Other { pub z: u32 } unsafe impl cxx::ExternType for Other { type Id = cxx::type_id!("ns::Al"); type Kind = cxx::kind::Trivial; } }
"""
TWIN = [
    ("mod", "pub mod ffi {"),
    ("S", "#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)] pub struct S {"), ("S.a", "pub a: u32,"), ("S.b", "pub b: String,"), ("S.c", "pub c: u8,"), (None, "}"),
    ("P", "#[derive(Copy, Clone)] pub struct P {"), ("P.x", "pub x: f64,"), (None, "}"),
    ("L", "pub struct L<'a> {"), ("L.s", "pub s: &'a str,"), (None, "}"),
    ("E", "#[derive(Copy, Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)] pub struct E {"), (None, "#[allow(missing_docs)] pub repr: u8"), (None, "}"),
    (None, "impl E {"), ("E.A", "pub const A: Self = Self { repr: 0 };"), ("E.B", "pub const B: Self = Self { repr: 7 };"), ("E.C", "pub const C: Self = Self { repr: 8 };"), (None, "}"),
    ("C", "pub struct C { _p: () }"), (None, "impl C {"), ("C.cm", "pub fn cm(&self) -> u32 { 0 }"), ("C.cn", "pub fn cn(self: std::pin::Pin<&mut C>, _s: &str) -> Result<u32, cxx::Exception> { Ok(0) }"), ("C.cr", "pub fn cr<'a>(&'a self, _l: &L<'a>) -> &'a C { self }"), (None, "}"),
    ("Al", "pub type Al = crate::o::Other;"), ("cf", "pub fn cf(_s: &S, _e: E) -> u32 { 0 }"), ("cg", "pub fn cg(_p: P) -> crate::W<C> { panic!() }"), ("ch", "pub fn ch(_v: &Vec<S>) -> Result<String, cxx::Exception> { panic!() }"),
    (None, "impl S {"), ("S.sc", "pub fn sc(&self) -> u8 { 0 }"), (None, "}"),
    (None, "}"),
]
# items that the bridge itself defines in Rust / declares in C++
RUST = [s for s, _ in TWIN if s]
# slot -> the line of C++ that declares it
CPP = {"S": r"struct S final {", "S.a": r"(::)?std::uint32_t a\b", "S.b": r"::rust::String b\b", "S.c": r"(::)?std::uint8_t c\b", "P": r"struct P final {", "P.x": r"double x\b", "L": r"struct L final {", "L.s": r"::rust::Str s\b",
       "E": r"enum class E\b", "E.A": r"A\b", "E.B": r"B\b", "E.C": r"C\b", "R": r"struct R final", "R.rm": r".*\brm\(", "R.rn": r".*\brn\(", "rf": r".*\brf\(", "rg": r".*\bg\(", "S.sm": r".*\bsm\(", "S.sn": r".*\bsn\("}
TEXTS = ["plain words", "Ends in a backslash\\", "A path C:\\dir\\", "two\\\\", "spaces after\\  ", "tab after\\\t", "feed after\\\x0c", "vt\\\x0b", "nul after\\\0", "nbsp after\\\u00a0", "trigraph??/", "trigraph ??/ \t", "??/??/", "\\", "??/", " \\ ",
         "bare\rreturn;", "bare\r}", "return\r\nnewline", "line\nline", "\n", "\n\n", "", " ", "*/ }", "/* open", "/** */", "// more", "# if 0", "#endif", "#define S T", "R\"(raw", "\"unbalanced", "'", "<html> & `code` [link](S)", "\u65e5\u672c\u8a9e \u00e9 \U0001d11e", "\ufeffbom", "a\u2028b\u0085c", "tab\tbed", "nul\0in", "x" * 5000, "@brief \\param x \\", "}", "};", "int a;", "a\\\nb\\\nc", "a\n\\", "a\\\rb", "??/\n??/", "%s %d {}", "\\u0041\\", "ends\\n", "-\\-"]
SPLICE = re.compile(r"(\\|\?\?/)[ \t\x0b\x0c\0]*$")


def rs_str(t): return '"' + "".join("\\\\" if c == "\\" else '\\"' if c == '"' else "\\n" if c == "\n" else "\\r" if c == "\r" else "\\0" if c == "\0" else "\\x%02x" % ord(c) if ord(c) < 32 else c for c in t) + '"'


class Doc:
    """What is written before an item: fragments of text, and its value."""
    def __init__(s, r, p=.75, n=None):
        s.frag = []
        if r.random() < p:
            for _ in range(n or r.choice([1, 1, 1, 2, 3])): s.frag.append(r.choice(TEXTS) if r.random() < .7 else " " + " ".join("".join(r.choice("abcdefgh\\/?*\"'{};#\t ") for _ in range(r.randrange(1, 9))) for _ in range(r.randrange(1, 6))) + r.choice(["", "", "\\", "??/", " "]))
        s.src = ""
        for t in s.frag:
            ok = "\r" not in t and "\n" not in t and "\0" not in t and not t.startswith("/") and "\u2028" not in t and "\ufeff" not in t
            block = ok and "*/" not in t and "/*" not in t and not t.startswith("*") and not t.endswith("*") and t.strip() and not t.endswith("/")
            k = r.randrange(4)
            if k == 0 and ok: s.src += "///%s\n" % t
            elif k == 1 and block: s.src += "/**%s*/\n" % t
            else: s.src += "#[doc = %s]\n" % rs_str(t)
    def attrs(s): return "".join("#[doc = %s]\n" % rs_str(t) for t in s.frag)
    def lines(s):
        if not s.frag: return []
        t = "".join(f + "\n" for f in s.frag).replace("\r\n", "\n").replace("\r", "\n")
        return t.split("\n")[:-1]


def emit(rows, slots, raw=False):
    out = []
    for slot, text in rows:
        if slot in slots: out.append(slots[slot].attrs() if raw else slots[slot].src)
        out.append(text + "\n")
    return "".join(out)


def tokens_of(ck, d, name, text, cxx, std):
    """What a compiler sees: the program without its comments."""
    f = os.path.join(d, name); open(f, "w", newline="").write(text)
    q = run([cxx, "-std=" + std, "-E", "-P", "-w", "-nostdinc", "-nostdinc++", f], timeout=120)
    return " ".join(l for l in q.out.split("\n")).split(), f


def comments_at(ck, text, slot, doc, dox, where, files):
    """The lines of documentation directly before the declaration of `slot`."""
    lines = text.split("\n"); pre = "///" if dox else "//"
    at = [i for i, l in enumerate(lines) if re.match(r"\s*" + CPP[slot], l) and not l.lstrip().startswith("//")]
    scope = {"S": "struct S final {", "P": "struct P final {", "L": "struct L final {", "E": "enum class E", "R": "struct R final"}
    if "." in slot:
        h = [i for i, l in enumerate(lines) if l.lstrip().startswith(scope[slot.split(".")[0]])]
        if not h: return "is not declared"
        at = [i for i in at if i > h[0]]
    if slot in "SPLER": at = [i for i in at if lines[i].rstrip().endswith("{")]
    if slot in ("rf", "rg"): at = [i for i in at if "cxxbridge1$" not in lines[i]]
    if not at: return "is not declared"
    i = at[0]; got = []; j = i - 1
    while j >= 0 and lines[j].lstrip().startswith("//"): got.insert(0, lines[j].lstrip()); j -= 1
    want = doc.lines()
    if dox and len(want) == 1:
        if len(got) != 2 or got[1] != "///": return "has no second line of documentation for Doxygen: %r" % got
        got = got[:1]
    if len(got) != len(want): return "has %d lines of documentation, %d were written: %r" % (len(got), len(want), got[:4])
    for g, w in zip(got, want):
        if not g.startswith(pre): return "has a comment that is no %s: %r" % (pre, g)
        g = g[len(pre):]
        if not (g == w or g.startswith(w) and SPLICE.search(w)): return "is documented as %r, was as %r" % (g, w)
    return None


HEADER = "#pragma once\n#include <cstdint>\n#include <memory>\n#include <string>\n#include <vector>\n#include \"rust/cxx.h\"\nnamespace ns { struct S; struct P; struct L; enum class E : std::uint8_t; struct Al { std::uint32_t z; };\nstruct C { std::uint32_t cm() const; std::uint32_t cn(::rust::Str); const C &cr(const L &) const; };\nstd::uint32_t cf(const S &, E); std::unique_ptr<C> cg_(P); ::rust::String ch(const std::vector<S> &); }\n"


def docs(ck, i, sb):
    r = random.Random("%d/%s/31/%d" % (SEED, TIER, i)); d = os.path.join(ck.dir, "d%d" % i); os.makedirs(d)
    slots = {s: Doc(r) for s, _ in BRIDGE if s and s != "mod"}; slots["mod"] = Doc(r, .3); use = r.random() < .5
    bare = emit(BRIDGE, {}); src = emit(BRIDGE, slots); g = units.vgen(); files = {"bridge.rs": src}
    a, b = g.gen(bare), g.gen(src)
    if a[0] != "OK": raise InfraError("bridge: %s" % (a,))
    if b[0] != "OK": ck.violation("docs/rejected", str(b)[:800], files); return
    outs = [("header", a[1], b[1], False), ("source", a[2], b[2], False)]
    if i % 2 == 0:
        w = sb.dir(); out = w + "/target/debug/build/dox-1/out"; os.makedirs(out); os.makedirs(w + "/p/src"); open(w + "/target/.rustc_info.json", "w").write("{}"); open(w + "/p/Cargo.toml", "w").write("[package]\n")
        open(w + "/p/src/lib.rs", "w").write(src); open(w + "/cxx.h", "w").write("// cxx.h\n"); own(w)
        q = sb.spawn([sb.bin, "dox=1", "file=src/lib.rs", "build"], {"OUT_DIR": out, "CARGO_MANIFEST_DIR": w + "/p", "CARGO_PKG_NAME": "p", "DEP_CXXBRIDGE1_HEADER": w + "/cxx.h"}, w + "/p")
        if q.rc: ck.violation("docs/doxygen", q.err[-800:], files); return
        outs += [("doxygen header", a[1], open(out + "/cxxbridge/include/p/src/lib.rs.h", newline="").read(), True), ("doxygen source", a[2], open(out + "/cxxbridge/sources/p/src/lib.rs.cc", newline="").read(), True)]
        shutil.rmtree(w, ignore_errors=True)
    cxx = ["g++", "clang++"][i // 2 % 2]
    for what, plain, documented, dox in outs:
        files[what.replace(" ", "-") + ".txt"] = documented
        for std in ("c++11", "c++20"):
            x, _ = tokens_of(ck, d, "plain.cc", plain, cxx, std); y, f = tokens_of(ck, d, "doc.cc", documented, cxx, std)
            ck.count(1, (what, cxx, std, i))
            if x != y:
                k = next((k for k, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
                ck.violation("docs/code", "the %s declares something else (%s -std=%s) with documentation than without: %s | instead of %s" % (what, cxx, std, " ".join(y[max(0, k - 8):k + 12]), " ".join(x[max(0, k - 8):k + 12])), files); break
        for s, doc in sorted(slots.items()):
            if s not in CPP or not doc.frag: continue
            bad = comments_at(ck, documented, s, doc, dox, what, files); ck.count(1, (s, tuple(doc.frag), dox))
            if bad: ck.violation("docs/comment/" + s, "in the %s, %s %s" % (what, s, bad), files)
    if not any(v[0].startswith("docs/code") for v in ck.violations):
        os.makedirs(d + "/sys", exist_ok=True); open(d + "/sys/u.h", "w").write(HEADER)
        for n, t in (("h.cc", b[1]), ("c.cc", b[2])) + ((("x.cc", outs[2][2]),) if len(outs) > 2 else ()):
            open(d + "/" + n, "w", newline="").write(t); std = r.choice(["c++11", "c++14", "c++17", "c++20"])
            q = run([cxx, "-std=" + std, "-fsyntax-only", *units.WARN, "-Wno-null-character" if cxx == "clang++" else "-Wall", "-Wno-pragma-once-outside-header" if cxx == "clang++" else "-Wall", "-I", d, "-isystem", cxx_include_dir(), "-isystem", d + "/sys", d + "/" + n], timeout=300)
            if q.timeout: raise InfraError("compile timeout")
            err = "\n".join(l for l in q.err.split("\n") if "#pragma once" not in l); ck.count(1, ("compile", n, cxx, std, i))
            if q.rc or re.search(r"\b(error|warning): (?!null character|#pragma once)", err): ck.violation("docs/diagnosed", "%s -std=%s: %s" % (cxx, std, "\n".join([l for l in err.split("\n") if "error" in l or "warning" in l][:6])), files)
    shutil.rmtree(d, ignore_errors=True)


# ---- rustdoc: documentation of the expanded items ------------------------------
def described(path):
    """name -> (documentation, deprecation) of what the module ffi has"""
    j = json.load(open(path)); ix = j["index"]; out = {}
    def add(n, it): out[n] = (it["docs"], json.dumps(it.get("deprecation")), "hidden" if any("hidden" in str(a) for a in it.get("attrs", [])) else "")
    mod = next(it for it in ix.values() if it["name"] == "ffi" and "module" in it["inner"]); add("mod", mod)
    for i in mod["inner"]["module"]["items"]:
        it = ix.get(str(i)); 
        if it is None: continue
        add(it["name"], it); inner = it["inner"]
        if "struct" in inner:
            k = inner["struct"]["kind"]
            for f in k["plain"]["fields"] if "plain" in k else []:
                if str(f) in ix: add("%s.%s" % (it["name"], ix[str(f)]["name"]), ix[str(f)])
            for m in inner["struct"]["impls"]:
                im = ix.get(str(m))
                if im and im["inner"]["impl"]["trait"] is None:
                    for f in im["inner"]["impl"]["items"]:
                        if str(f) in ix: add("%s.%s" % (it["name"], ix[str(f)]["name"]), ix[str(f)])
    return out


def rustdoc(src, d):
    rt = rtdeps("none"); os.makedirs(d, exist_ok=True); open(d + "/b.rs", "w").write(src)
    cmd = ["rustdoc", d + "/b.rs", "--edition", "2021", "--crate-name", "b", "--crate-type", "lib", "-o", d, "-Zunstable-options", "--output-format", "json", "--document-hidden-items", "--extern", "cxx=" + rt.cxx_rlib, "--target", TARGET, "--cap-lints", "allow"]
    for x in rt.deps: cmd += ["-L", "dependency=" + x]
    return run(cmd, timeout=300)


def rust_docs(ck, i):
    r = random.Random("%d/%s/31r/%d" % (SEED, TIER, i)); d = os.path.join(ck.dir, "r%d" % i)
    slots = {s: Doc(r, .8) for s, _ in BRIDGE if s}; hid = set(r.sample(RUST[1:], 3)); dep = set(r.sample(RUST[1:], 4))
    for s in hid: slots[s].src += "#[doc(hidden)]\n"
    for s in dep:
        a = r.choice(["#[deprecated]\n", "#[deprecated = \"since ever\"]\n", "#[deprecated(since = \"1.0\", note = \"use \\\"x\\\"\")]\n"]); slots[s].src += a; slots[s].extra = a
    def twin(s):
        o = slots[s]; c = Doc(r, 0); c.src = o.attrs() + ("#[doc(hidden)]\n" if s in hid else "") + getattr(o, "extra", ""); return c
    a = emit(BRIDGE, slots) + OUTSIDE + OTHER; b = emit(TWIN, {s: twin(s) for s in slots}) + OTHER
    for k, t in (("bridge", a), ("twin", b)):
        q = rustdoc("#![allow(warnings)]\n" + t, d + "/" + k)
        if q.timeout: raise InfraError("rustdoc timeout")
        if q.rc:
            if k == "twin": raise InfraError("twin: " + q.err[-1500:])
            ck.violation("rustdoc/rejected", q.err[-1500:], {"b.rs": t}); return
    x, y = described(d + "/bridge/b.json"), described(d + "/twin/b.json")
    for s in RUST:
        ck.count(1, ("rustdoc", s, tuple(slots[s].frag), s in hid, s in dep)); p, q = x.get(s), y.get(s)
        if p == q: continue
        ck.violation("rustdoc/" + s, "%s: the documentation of the bridge's item is %r, of the same item written by hand %r" % (s, p, q), {"b.rs": a, "twin.rs": b})
    shutil.rmtree(d, ignore_errors=True)


# ---- attributes ------------------------------------------------------------------
ATTRS = ["#[deprecated]", "#[deprecated = \"why\"]", "#[deprecated(since = \"2\", note = \"n\")]", "#[must_use]", "#[must_use = \"because\"]", "#[allow(missing_docs)]", "#[warn(missing_docs)]", "#[deny(missing_docs)]", "#[allow(deprecated)]", "#[allow(dead_code)]", "#[allow(unused)]", "#[deny(unused_must_use)]", "#[allow(clippy::all)]", "#[warn(clippy::pedantic)]"]
USES = {"mod": "let _ = ffi::E::A;", "S": "let _x: Option<ffi::S> = None;", "S.a": "let _ = x.s.a;", "S.b": "let _ = &x.s.b;", "S.c": "let _ = x.s.c;", "P": "let _x: Option<ffi::P> = None;", "P.x": "let _ = x.p.x;", "L": "let _x: Option<ffi::L> = None;", "L.s": "let _ = x.l.s;",
        "E": "let _x: Option<ffi::E> = None;", "E.A": "let _ = ffi::E::A;", "E.B": "let _ = ffi::E::B.repr;", "E.C": "let _ = x.e == ffi::E::C;", "C": "let _x: Option<&ffi::C> = None;", "C.cm": "x.c.cm();", "C.cn": "let _ = x.m.cn(\"\");", "C.cr": "x.c.cr(x.l);",
        "Al": "let _x: Option<ffi::Al> = None;", "cf": "ffi::cf(x.s, x.e);", "cg": "ffi::cg(*x.p);", "ch": "let _ = ffi::ch(x.v);", "S.sc": "x.s.sc();", "ret S": "ms();", "ret C": "mc(x.c);", "ret E": "me();"}
X = "#[allow(deprecated)] pub struct X<'a> { pub s: &'a ffi::S, pub p: &'a ffi::P, pub l: &'a ffi::L<'a>, pub e: ffi::E, pub c: &'a ffi::C, pub m: std::pin::Pin<&'a mut ffi::C>, pub v: &'a %s<ffi::S> }\n#[allow(deprecated)] fn ms() -> ffi::S { panic!() } #[allow(deprecated)] fn mc<'a>(c: &'a ffi::C) -> &'a ffi::C { c } #[allow(deprecated)] fn me() -> ffi::E { panic!() }\n"


def diagnostics(err, text, name):
    """{(lint, what it is about, message)}: about a use, an item, or something else"""
    out = []; lines = text.split("\n")
    for l in err.split("\n"):
        if not l.startswith("{"): continue
        m = json.loads(l)
        if m.get("level") not in ("warning", "error") or not m.get("spans"): continue
        sp = next((s for s in m["spans"] if s["is_primary"]), m["spans"][0]); n = sp["line_start"] - 1; at = None
        for k in range(n, min(n + 2, len(lines))):
            h = re.search(r"//@(.*)$", lines[k])
            if h: at = h.group(1); break
        c = (m.get("code") or {}).get("code")
        out.append((m["level"], c, at, re.sub(r"`[^`]*`", "`_`", m["message"]) if at and at.startswith("use") else ""))
    return out


GLUE = ["S", "S.a", "S.b", "S.c", "P", "L", "E", "C", "Al", "mod"]


def attributes(ck, i, only=None):
    r = random.Random("%d/%s/31a/%d" % (SEED, TIER, i)); d = os.path.join(ck.dir, "a%s" % (only or i)); os.makedirs(d); rt = rtdeps("none")
    slots = {s: "" for s in RUST}
    for s in RUST[1:]:
        if r.random() < .45:
            for a in r.sample(ATTRS, r.choice([1, 1, 2])):
                if not (a[:8] in slots[s]): slots[s] += a + " "
    if only: slots = {s: "#[deprecated] " if s == only else "" for s in RUST}
    elif r.random() < .15: slots["mod"] = r.choice(["#[allow(unused)]", "#[warn(missing_docs)]", "#[deprecated]", "#[deny(unused_must_use)]"]) + " "
    docs = {s: r.random() < .5 for s in RUST}
    def body(rows): return "".join("%s%s%s%s\n" % ("/// d\n" if docs.get(s) or s and s not in RUST else "", slots.get(s, ""), t, " //@" + s if s else "") if s != "mod" else "/// d\n%s%s //@mod\n" % (slots["mod"], t) for s, t in rows)
    uses = "".join("pub fn use_%d(x: X) { %s } //@use %s\n" % (k, u, s) for k, (s, u) in enumerate(sorted(USES.items())))
    uses = "#[allow(unused_variables, missing_docs)] mod user { use super::*;\n%s}\n" % uses
    head = "#![warn(missing_docs)]\n#![allow(unknown_lints, dead_code)]\n" 
    hid = lambda t: "".join("#[allow(missing_docs)] " + l + "\n" if l.startswith("pub ") else l + "\n" for l in t.split("\n"))
    a = head + body(BRIDGE) + hid(OUTSIDE + OTHER) + "#[allow(missing_docs)]\n" + (X % "cxx::CxxVector") + uses
    b = head + body(TWIN) + hid(OTHER) + "#[allow(missing_docs)]\n" + X % "Vec" + uses
    res = {}
    for k, t in (("bridge", a), ("twin", b)):
        f = "%s/%s.rs" % (d, k); open(f, "w").write(t)
        q = rt.rustc(f, d + "/%s.rmeta" % k, "lib", ["--emit=metadata", "--crate-name", "b"], json_errors=True, timeout=300)
        if q.timeout: raise InfraError("rustc timeout")
        res[k] = diagnostics(q.err, t, k); res[k + "raw"] = q.err
    files = {"bridge.rs": a, "twin.rs": b, "bridge.json": res["bridgeraw"], "twin.json": res["twinraw"]}
    if not any(x[2] and x[2].startswith("use") for x in res["twin"]) and any(l == "error" and not c for l, c, _, _ in res["twin"]): raise InfraError("twin: " + res["twinraw"][-1500:])
    def judged(z):
        l, c, at, _ = z
        if at is None or at not in RUST and not at.startswith("use "): return False  # the user's own functions, named once more in the bridge
        if c == "missing_docs" and (at == "mod" or at in ("C.cn", "ch")): return False  # reported at the attribute
        if c == "deprecated" and at in RUST:  # a signature that mentions a deprecated type
            own = [at] + re.findall(r"\b[SEPLC]\b", dict(BRIDGE)[at]) + [at.split(".")[0]]
            if "." in at and at.split(".")[0] == "E" or "deprecated" in slots["mod"] or any("deprecated" in slots.get(o, "") for o in own[1:] if o != at and dict(BRIDGE)[at].find("fn ") >= 0): return False
        return True
    x, y = set(filter(judged, res["bridge"])), set(filter(judged, res["twin"])); y -= {z for z in y if z[1] == "deprecated" and z[2] in RUST}; ck.count(len(USES) + len(RUST), ("attrs", i))
    for s in slots: 
        if slots[s]: ck.saw((s, slots[s]))
    with ck.lock: ck.notes["diagnostics compared"] = ck.notes.get("diagnostics compared", 0) + len(y)
    for z in sorted(x ^ y, key=str):
        who = (z[2] or "").replace("use ", "")
        if z in x and z[1] == "deprecated" and z[2] in GLUE: ck.violation("deprecated-glue/" + z[2], "the generated code for %s warns about the #[deprecated] that was written on it" % z[2], files); continue
        ck.violation("attrs/%s/%s/%s" % (z[1], z[2], "extra" if z in x else "missing"), "%s of %s: %s (attributes of %s: %s)" % (z[:3], z[2], "only from the bridge" if z in x else "only from the same item written by hand", who, slots.get(who) or slots.get(who.split(".")[0])), files)
    shutil.rmtree(d, ignore_errors=True)


# ---- header names -------------------------------------------------------------------
NAMES = ["plain.h", "sub/dir/x.hpp", "o'brien/x.h", "caf\u00e9.h", "\u65e5\u672c.hh", "with space.h", "a%b.h", "tab\there.h", "back\\slash.h", "a{b}.h", "{}.h", "a\\n.h", "x+y=z.h", "no_extension", "#hash.h", "$x.h", "a,b(c).h", "..dots...h", "\u00a0.h", "//abs.h"[2:], "a~.h", "\U0001d11e.h"]


def header_names(ck, i):
    r = random.Random("%d/31h/%d" % (SEED, i)); d = os.path.join(ck.dir, "h%d" % i); os.makedirs(d + "/inc"); ns = r.sample(NAMES, 6)
    for k, n in enumerate(ns):
        f = os.path.join(d, "inc", n); os.makedirs(os.path.dirname(f), exist_ok=True); open(f, "w").write("enum { FOUND%d };\n" % k)
    src = "#[cxx::bridge] mod ffi { unsafe extern \"C++\" { %s type C; } impl UniquePtr<C> {} }" % " ".join("include!(%s);" % rs_str(n) for n in ns[:4])
    res = units.vgen().gen(src, "".join("include q %s\n" % n for n in ns[4:]))
    if res[0] != "OK": ck.violation("names/rejected", str(res)[:500], {"bridge.rs": src}); return
    for f, t in (("b.h", res[1]), ("b.cc", res[2])):
        p = os.path.join(d, f); open(p, "w").write(t.split("namespace")[0] if f == "b.h" else t); open(d + "/t.cc", "w").write("#include \"%s\"\nint all[] = { %s };\n" % (f, ", ".join("FOUND%d" % k for k in range(len(ns)))))
        q = run(["g++", "-std=c++17", "-fsyntax-only", "-w", "-I", d, "-I", d + "/inc", "-include", "memory", d + "/t.cc"], timeout=120); ck.count(len(ns), (f, tuple(ns)))
        miss = [l for l in q.err.split("\n") if "No such file" in l or "FOUND" in l]
        if miss: ck.violation("names", "%s: %s" % (f, miss[0]), {"bridge.rs": src, f: t})
    shutil.rmtree(d, ignore_errors=True)


def main(ck):
    ck.rule = "an evaluation is one documented item found in C++ or by rustdoc, one output compared or compiled, one use or item whose diagnostics are compared, or one header name resolved; distinct counts distinct texts by place, attributes by item, and outputs by compiler and standard"
    rtdeps("none"); vgen_bin(); sb = Sandbox("c31")
    try:
        jobs = [lambda i=i: docs(ck, i, sb) for i in range(400 if THOROUGH else 60)]
        jobs += [lambda i=i: rust_docs(ck, i) for i in range(120 if THOROUGH else 16)]
        jobs += [lambda i=i: attributes(ck, i) for i in range(400 if THOROUGH else 50)]
        jobs += [lambda s=s: attributes(ck, 0, s) for s in GLUE if s != "mod"]
        jobs += [lambda i=i: header_names(ck, i) for i in range(40 if THOROUGH else 10)]
        random.Random(SEED).shuffle(jobs); pmap(lambda j: j(), jobs)
    finally: sb.close()
