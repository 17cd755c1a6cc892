"""C27: identity and kind of types that several bridges share."""
from common import *
from compileprobe import Probe, judge_all
import itertools, os, random, re, units

WORDS = ["a", "b", "ab", "c", "A", "a1", "_a", "a_", "a_b", "folly", "File", "F", "ile", "x1", "x10", "T", "é", "ée", "ê", "type", "self_", "match"]
RAW = {"type", "match"}


def raw(w): return "r#" + w if w in RAW else w


def identity(r):
    """A namespace and a name; small vocabulary, so that near misses are common."""
    k = r.choice([0, 1, 1, 2, 2, 3])
    return tuple(r.choice(WORDS) for _ in range(k)), r.choice(WORDS + ["Foo", "Bar"])


def near(r, q):
    """Another identity that looks like q."""
    ns, n = list(q[0]), q[1]; k = r.randrange(14)
    if k == 0 and ns: ns = ns[:-1]
    elif k == 1: ns = ns + [r.choice(WORDS)]
    elif k == 2 and ns: n = ns[-1] + n; ns = ns[:-1]
    elif k == 3 and len(n) > 1 and "é" not in n: ns = ns + [n[0]]; n = n[1:]
    elif k == 4: n = n + r.choice(["_", "1", "x"])
    elif k == 5: n = n.swapcase()
    elif k == 6 and len(ns) > 1: ns = ns[::-1]
    elif k == 7 and len(ns) > 1: ns = [ns[0] + ns[1]] + ns[2:]
    elif k == 8: n = n[:-1] or n + n
    elif k == 9 and ns: ns[r.randrange(len(ns))] = r.choice(WORDS)
    elif k == 10 and ns: ns = ns[1:]
    elif k >= 12:
        # one character replaced by one of its kind
        j = r.randrange(len(n)); c = n[j]; kind = [x for x in CHARS if x != c and x.isdigit() == c.isdigit() and x.isascii() == c.isascii()]
        if kind: n = n[:j] + r.choice(kind) + n[j + 1:]
    else: ns = [r.choice(WORDS)] + ns
    ns = [w for w in ns if w != "_"]
    if not re.fullmatch(r"[^\W\d]\w*", n) or n in ("_", "self", "Self", "super", "crate", "fn", "if", "as", "in", "do"): n = "Q" + n
    while "__" in n: n = n.replace("__", "_")   # reserved in C++
    if n == "Q_": n = "Q"
    return tuple(ns), n


CHARS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_éèßΩω中国अĀāǅ"

def alphabet():
    """Identities that differ from each other in one character, at the end of the name or of a namespace."""
    return [((), "q" + c) for c in CHARS] + [(("q" + c,), "T") for c in CHARS] + [(("q",), c) for c in CHARS if not c.isdigit() and c != "_"] + [((), "q" + c + c) for c in CHARS if c != "_"]


def quals(q): return "::".join(q[0] + (q[1],))


class Decl:
    """A type declared in one bridge with the C++ identity q, one way or another."""
    def __init__(s, r, q, i):
        s.q = q; ns, n = q
        s.kind = r.choice(["opaque", "opaque", "struct", "enum", "rust", "manual", "manual-trivial"])
        s.rename = n in RAW or r.random() < .4
        s.rust = "N%d" % i if s.rename else n
        # the namespace may be given on the bridge, on the block, or on the item; the innermost wins
        def other(): return identity(r)[0]
        def attr(x, quoted): return "namespace = " + ('"%s"' % "::".join(x) if quoted or not x else "::".join(raw(w) for w in x))
        block = s.kind in ("opaque", "rust")
        where = r.choice(["bridge", "item"] + (["block"] if block else []))
        if not ns: where = r.choice(["none", "none", where])
        A = {w: None for w in ("bridge", "block", "item")}
        if where != "none":
            A[where] = ns
            order = ["bridge", "block", "item"]
            for w in order[:order.index(where)]:
                if r.random() < .4 and (w != "block" or block): A[w] = other()
        q1 = lambda: r.random() < .6
        s.bridge_attr = "(%s)" % attr(A["bridge"], q1()) if A["bridge"] is not None else ""
        blk = "#[%s] " % attr(A["block"], q1()) if A["block"] is not None else ""
        it = "#[%s] " % attr(A["item"], q1()) if A["item"] is not None else ""
        if s.rename: it = r.choice(["#[cxx_name = \"%s\"] %s" % (n, it), "%s#[cxx_name = \"%s\"] " % (it, n)])
        s.vis_path = s.rust
        if s.kind == "opaque": s.body = "%sunsafe extern \"C++\" { %stype %s; }" % (blk, it, s.rust)
        elif s.kind == "rust": s.body = "%sextern \"Rust\" { %s#[derive(ExternType)] type %s; }" % (blk, it, s.rust)
        elif s.kind == "struct": s.body = "%sstruct %s { x: u8 }" % (it, s.rust)
        elif s.kind == "enum": s.body = "%senum %s { X }" % (it, s.rust)
        s.trivial = s.kind in ("struct", "enum", "manual-trivial")
        s.extra = ""
        if s.kind.startswith("manual"):
            s.text = "pub mod ffi { #[repr(C)] pub struct %s { x: u8 } unsafe impl cxx::ExternType for %s { type Id = cxx::type_id!(%s); type Kind = cxx::kind::%s; } }" % (s.rust, s.rust, r.choice(['"%s"', '"::%s"']) % "::".join(ns + (n,)), "Trivial" if s.trivial else "Opaque")
        else:
            if s.kind == "rust": s.extra = "pub struct %s(u8); " % s.rust
            s.text = s.extra + "#[cxx::bridge%s] pub mod ffi { %s }" % (s.bridge_attr, s.body)
        s.path = ("" if s.kind == "rust" else "ffi::") + s.rust


def alias(r, q, i, path):
    """`type Y = path` declared with the C++ identity q."""
    while True:
        d = Decl(r, q, i)
        if d.kind == "opaque": break
    return "#[cxx::bridge%s] pub mod user { %s }" % (d.bridge_attr, d.body.replace("type %s;" % d.rust, "type %s = %s;" % (d.rust, path)))


def pool(r, n):
    qs = []
    while len(qs) < n:
        q = identity(r)
        qs.append(q); x = q
        for _ in range(r.randrange(3)): x = near(r, x); qs.append(x)
    return qs[:n]


def same_ids(ck, i, n, qs=None):
    """The Id types of all declarations of one program: equal iff the C++ identities are."""
    r = random.Random("%d/%s/c27/id%d" % (SEED, TIER, i)); qs = qs or pool(r, n); ds = []
    for j, q in enumerate(qs):
        while True:
            d = Decl(r, q, j)
            if d.kind != "rust" or not any(e.kind == "rust" and e.q == q for e in ds): break
        ds.append(d)
    rs = ["#![allow(warnings)]", "use cxx::ExternType;", "pub fn id<T: ExternType>() -> std::any::TypeId where T::Id: 'static { std::any::TypeId::of::<T::Id>() }"]
    for j, d in enumerate(ds): rs.append("pub mod m%d { %s }" % (j, d.text))
    rs.append("fn main() { for x in ids() { println!(\"{:?}\", x); } } fn ids() -> Vec<std::any::TypeId> { vec![" + ",".join("id::<m%d::%s>()" % (j, d.path) for j, d in enumerate(ds)) + "] }")
    path = os.path.join(ck.dir, "id%d.rs" % i); open(path, "w").write("\n".join(rs))
    # nothing of C++ is needed to run this: the linker may leave out what is not called
    x = rtdeps("none").rustc(path, path[:-3], "bin", ["-Clink-arg=-Wl,--gc-sections", "-Clink-arg=-Wl,--unresolved-symbols=ignore-all"])
    if x.rc:
        ck.violation("ids/compile", "bridges declaring types of all kinds do not compile: %s" % x.err[:3000], {"ids.rs": "\n".join(rs)}); return
    o = run([path[:-3]]); got = o.out.split("\n")[:len(ds)]
    if o.rc or len(got) != len(ds): raise InfraError("ids: %s %s" % (o.rc, o.err[:300]))
    first = {}
    for j, (d, g) in enumerate(zip(ds, got)):
        ck.count(1, ("id", d.kind, len(d.q[0]), d.rename))
        for k in range(j):
            if (got[k] == g) != (ds[k].q == d.q):
                ck.violation("ids/%s/%s" % tuple(["same" if got[k] == g else "different"] + ["-".join(sorted({ds[k].kind, d.kind}))]), "the Ids of %s and %s are %s\n%s\n%s" % (quals(ds[k].q), quals(d.q), "equal" if got[k] == g else "different", ds[k].text, d.text), {"ids.rs": "\n".join(rs)})
    with ck.lock: ck.notes["id_pairs"] = ck.notes.get("id_pairs", 0) + len(ds) * (len(ds) - 1) // 2
    os.unlink(path[:-3])


def verified(ck, n):
    """`type Y = other::X` is accepted iff both denote the same C++ type."""
    r = random.Random("%d/%s/c27/alias" % (SEED, TIER)); out = []
    for i in range(n):
        q = identity(r); p = q if r.random() < .45 else near(r, q); d = Decl(r, q, i)
        t = d.text + " " + alias(r, p, i, "super::" + d.path)
        out.append(Probe("alias/%s/%s" % (d.kind, "same" if p == q else "other"), t, p == q, "%s is reused as %s" % (quals(q), quals(p))))
    # the library's own types
    for ty, c in (("u8", "std::uint8_t"), ("i64", "std::int64_t"), ("usize", "size_t"), ("isize", "rust::isize"), ("f64", "double"), ("bool", "bool"), ("String", "rust::String"), ("cxx::CxxString", "std::string")):
        *ns, n = c.split("::")
        for k, (w, x) in enumerate(((ns, n), (ns + ["x"], n), (["x"] + ns, n), (ns, n + "_"), ([], n))):
            body = "#[namespace = \"%s\"] #[cxx_name = \"%s\"] type Y = %s;" % ("::".join(w), x, ty)
            out.append(Probe("alias/library/%d" % k, "#[cxx::bridge] pub mod user { unsafe extern \"C++\" { %s } }" % body, (list(w), x) == (ns, n), "%s is reused as %s" % (c, "::".join(w + [x]))))
    out.append(Probe("alias/none", "pub struct Z(u8); #[cxx::bridge] pub mod user { unsafe extern \"C++\" { type Z = super::Z; } }", False, "Z has no C++ identity"))
    judge_all(ck, "alias", out)


# use -> (declarations, needs a trivial type)
USES = {
    "none": ("", False), "ref-arg": ("fn f(x: &Y);", False), "ref-ret": ("fn f(x: &Y) -> &Y;", False), "pin-arg": ("fn f(x: Pin<&mut Y>);", False), "pin-ret": ("fn f(x: Pin<&mut Y>) -> Pin<&mut Y>;", False), "ptr-arg": ("unsafe fn f(x: *const Y) -> *mut Y;", False),
    "unique": ("fn f(x: UniquePtr<Y>) -> UniquePtr<Y>;", False), "shared": ("fn f(x: SharedPtr<Y>) -> SharedPtr<Y>;", False), "weak": ("fn f(x: WeakPtr<Y>);", False), "vector": ("fn f(x: &CxxVector<Y>);", False), "unique-vector": ("fn f() -> UniquePtr<CxxVector<Y>>;", False), "method": ("fn f(self: &Y) -> u8;", False), "method-pin": ("fn f(self: Pin<&mut Y>) -> u8;", False), "result-ref": ("fn f(x: &Y) -> Result<&Y>;", False), "result-unique": ("fn f() -> Result<UniquePtr<Y>>;", False),
    "arg": ("fn f(x: Y);", True), "second-arg": ("fn f(a: u8, b: &str, x: Y);", True), "ret": ("fn f() -> Y;", True), "result": ("fn f() -> Result<Y>;", True), "mut-arg": ("fn f(x: &mut Y);", True), "mut-ret": ("fn f(x: &mut Y) -> &mut Y;", True), "mut-ret-only": ("fn f(x: &mut [u8]) -> &mut Y;", True), "mut-self": ("fn f(self: &mut Y);", True),
    "slice": ("fn f(x: &[Y]);", True), "mut-slice": ("fn f(x: &mut [Y]);", True), "slice-ret": ("fn f(x: &[u8]) -> &[Y];", True), "vec": ("fn f(x: Vec<Y>);", True), "vec-ref": ("fn f(x: &Vec<Y>);", True), "vec-ret": ("fn f() -> Vec<Y>;", True), "vec-mut": ("fn f(x: &mut Vec<Y>);", True), "fnptr-ref": ("fn f(g: fn(x: &Y) -> u8);", False), "fnptr-arg": ("fn f(g: fn(x: Y) -> u8);", True), "fnptr-ret": ("fn f(g: fn() -> Y);", True), "fnptr-mut": ("fn f(g: fn(x: &mut Y));", True), "fnptr-vec": ("fn f(g: fn(x: Vec<Y>));", True),
}
ITEMS = {"field": ("struct S { x: Y }", True), "field-unique": ("struct S { x: UniquePtr<Y> }", False), "field-shared": ("struct S { x: SharedPtr<Y> }", False), "field-weak": ("struct S { x: WeakPtr<Y> }", False), "field-vec": ("struct S { x: Vec<Y> }", True), "field-ref": ("struct S<'a> { x: &'a Y }", False), "field-pin": ("struct S<'a> { x: Pin<&'a mut Y> }", False), "field-last": ("struct S { a: u8, b: String, x: Y }", True), "field-slice": ("struct S<'a> { x: &'a [Y] }", True), "impls": ("impl UniquePtr<Y> {} impl SharedPtr<Y> {} impl WeakPtr<Y> {} impl CxxVector<Y> {}", False), "impl-vec": ("impl Vec<Y> {}", True)}
RUSTOK = {"ref-arg", "ref-ret", "ptr-arg", "unique", "shared", "pin-arg", "arg", "second-arg", "ret", "result", "mut-arg", "mut-ret", "mut-ret-only", "slice", "mut-slice", "slice-ret", "vec", "vec-ref", "vec-ret", "vec-mut", "vector"}
INNOCENT = ["fn i0(x: &Y);", "fn i1() -> UniquePtr<Y>;", "fn i2(x: Pin<&mut Y>);", "fn i3(x: SharedPtr<Y>);", "fn i4(x: u8) -> String;", "type Z; fn i5(x: &Z);"]


def padded(r, decl):
    """The function with more arguments before and after those it has."""
    m = re.match(r"((?:unsafe )?fn f\()(.*?)(\)(?: -> [^)]*)?;)$", decl)
    if not m or r.random() < .5: return decl
    n = lambda p: ["%s%d: %s" % (p, k, r.choice(["u8", "i64", "bool", "f64"])) for k in range(r.choice([0, 1, 2, 4]))]
    head, args, tail = m.groups(); own = [args] if args else []
    return head + ", ".join(([] if "self" in args else n("p")) + own + n("q")) + tail


def kinds(ck, rounds):
    """Which uses need Kind = Trivial, whatever else the bridge does with the type."""
    r = random.Random("%d/%s/c27/kind" % (SEED, TIER)); out = []
    for k in range(rounds):
        for use in list(USES) + list(ITEMS):
            for src in ("struct", "enum", "manual-trivial", "opaque", "manual"):
                if k % 2 == 0 and src in ("struct", "enum") and r.random() < .6: continue
                q = identity(r)
                while True:
                    d = Decl(r, q, 77)
                    if d.kind == src: break
                if use == "field" and d.rust == "S" or d.rust in ("Y", "S"): continue
                inner = r.sample(INNOCENT, r.choice([0, 0, 1, 2, 3])); item = ""
                lang = "rust" if use in RUSTOK and r.random() < .4 else "c++"
                if use in USES:
                    decl, need = USES[use]; decl = padded(r, decl)
                    if lang == "c++": inner.insert(r.randrange(len(inner) + 1), decl)
                else: item, need = ITEMS[use]; decl = ""
                ns, n = q
                it = "#[namespace = \"%s\"] #[cxx_name = \"%s\"] type Y = super::%s; " % ("::".join(ns), n, d.path)
                inner.insert(r.randrange(len(inner) + 1), it)
                blocks = ["unsafe extern \"C++\" { %s }" % " ".join(inner)]
                if item: blocks.insert(r.randrange(2), item)
                fn = ""
                if lang == "rust" and decl:
                    blocks.insert(r.randrange(len(blocks) + 1), "extern \"Rust\" { %s }" % decl)
                    fn = decl.rstrip(";").replace("Result<Y>", "Result<Y, String>"); fn = "use user::Y; use cxx::*; use std::pin::Pin; pub " + fn + " { loop {} }"
                # implicit impls are not made for aliased types
                body = " ".join(blocks)
                for w in ("UniquePtr", "SharedPtr", "WeakPtr", "CxxVector", "Vec"):
                    if re.search(r"\b%s<Y>" % w, body) and "impl %s<Y>" % w not in body: blocks.insert(r.randrange(len(blocks) + 1), "impl %s<Y> {}" % w)
                t = "%s #[cxx::bridge] pub mod user { %s } %s" % (d.text, " ".join(blocks), fn)
                ok = d.trivial or not need
                out.append(Probe("kind/%s/%s/%s" % (use, src, lang), t, ok, "%s of a type of kind %s%s" % (use, "Trivial" if d.trivial else "Opaque", "" if lang == "c++" else " in a Rust function")))
    judge_all(ck, "kind", out, batch=200)


# uses of a shared type with lifetimes
GENERIC = {"none": ("", False), "ref": ("fn f(x: &Y<'_>);", False), "ref-named": ("unsafe fn f<'a>(x: &'a Y<'a>) -> &'a Y<'a>;", False), "pin": ("fn f(x: Pin<&mut Y<'_>>);", False), "ptr": ("unsafe fn f(x: *const Y<'_>);", False), "method": ("fn f(self: &Y<'_>, a: u8) -> u8;", False), "method-pin": ("fn f(self: Pin<&mut Y<'_>>);", False),
           "arg": ("fn f(x: Y<'_>);", True), "arg-named": ("unsafe fn f<'a>(a: &'a str, x: Y<'a>, b: u8);", True), "ret": ("unsafe fn f<'a>(x: &'a str) -> Y<'a>;", True), "result": ("unsafe fn f<'a>(x: &'a str) -> Result<Y<'a>>;", True), "mut": ("fn f(x: &mut Y<'_>, b: u8);", True), "mut-self": ("fn f(self: &mut Y<'_>);", True), "mut-self-args": ("fn f(self: &mut Y<'_>, a: u8, b: &str);", True), "slice": ("fn f(x: &[Y<'_>]);", True), "field": ("", True), "field-ref": ("", False)}
GENERIC_SOURCES = {"opaque": ("#[cxx::bridge] pub mod ffi { %s unsafe extern \"C++\" { %s type X<'a>; } }", False), "struct": ("#[cxx::bridge] pub mod ffi { %s %s struct X<'a> { r: &'a u8 } }", True),
                   "manual": ("pub mod ffi { #[repr(C)] pub struct X<'a> { x: &'a u8 } unsafe impl<'a> cxx::ExternType for X<'a> { type Id = cxx::type_id!(\"%s\"); type Kind = cxx::kind::Opaque; } }", False),
                   "manual-trivial": ("pub mod ffi { #[repr(C)] pub struct X<'a> { x: &'a u8 } unsafe impl<'a> cxx::ExternType for X<'a> { type Id = cxx::type_id!(\"%s\"); type Kind = cxx::kind::Trivial; } }", True)}


def generic(ck, rounds):
    """The same rules for aliases with lifetime parameters."""
    r = random.Random("%d/%s/c27/generic" % (SEED, TIER)); out = []
    for k in range(rounds):
        for src, (text, trivial) in GENERIC_SOURCES.items():
            for use, (decl, need) in GENERIC.items():
                ns = r.choice(["a", "b::c", "d"]); same = r.random() < .75; lt = r.choice(["'a", "'x", "'long"])
                d = text % (("", '#[namespace = "%s"]' % ns) if text.count("%s") == 2 else ns + "::X")
                item = {"field": "struct S<'z> { u: u8, x: Y<'z> }", "field-ref": "struct S<'z> { x: &'z Y<'z> }"}.get(use, "")
                inner = ['#[namespace = "%s"] #[cxx_name = "X"] type Y<%s> = super::ffi::X<%s>;' % (ns if same else ns + r.choice(["x", "::y"]), lt, lt)]
                if decl: inner.insert(r.randrange(2), decl)
                if r.random() < .5: inner.insert(r.randrange(len(inner) + 1), "fn i0(x: &Y<'_>);")
                blocks = ['unsafe extern "C++" { %s }' % " ".join(inner)]
                if item: blocks.insert(r.randrange(2), item)
                out.append(Probe("generic/%s/%s" % (use, src), "%s #[cxx::bridge] pub mod user { %s }" % (d, " ".join(blocks)), same and (trivial or not need), "%s with a lifetime: %s, identity %s" % (use, src, "the same" if same else "another")))
    judge_all(ck, "generic", out, batch=100)


CXXTYPES = [  # (name, definition, relocatable, array of relocatable)
    ("Pod", "struct Pod { int x; };", 1), ("Empty", "struct Empty {};", 1), ("Dtor", "struct Dtor { int x; ~Dtor(); };", 0), ("MoveCtor", "struct MoveCtor { MoveCtor(MoveCtor &&); };", 0), ("MoveDeleted", "struct MoveDeleted { MoveDeleted(MoveDeleted &&) = delete; };", 0),
    ("CopyCtor", "struct CopyCtor { CopyCtor(const CopyCtor &); };", 0), ("CopyTrivial", "struct CopyTrivial { CopyTrivial(const CopyTrivial &) = default; int x; };", 1), ("MoveOnly", "struct MoveOnly { MoveOnly(MoveOnly &&) = default; MoveOnly(const MoveOnly &) = delete; int x; };", 1), ("Virtual", "struct Virtual { virtual void f(); };", 0), ("VDtor", "struct VDtor { virtual ~VDtor(); };", 0),
    ("Str", "struct Str { std::string s; };", 0), ("Uptr", "struct Uptr { std::unique_ptr<int> s; };", 0), ("Ctor", "struct Ctor { Ctor(int); int x; };", 1), ("Assign", "struct Assign { Assign &operator=(const Assign &); Assign(const Assign &) = default; int x; };", 1), ("Private", "class Private { int x; };", 1), ("PrivateDtor", "class PrivateDtor { ~PrivateDtor() = default; };", 0), ("Derived", "struct DBase { int y; ~DBase(); }; struct Derived : DBase {};", 0), ("DefDtor", "struct DefDtor { ~DefDtor() = default; };", 1),
    ("OptIn", "struct OptIn { ~OptIn(); using IsRelocatable = std::true_type; };", 1), ("OptOut", "struct OptOut { int x; using IsRelocatable = std::false_type; };", 0), ("OptInMove", "struct OptInMove { OptInMove(OptInMove &&); using IsRelocatable = std::true_type; };", 1), ("OptVirtual", "struct OptVirtual { virtual ~OptVirtual(); using IsRelocatable = std::true_type; };", 1), ("OptWrong", "struct OptWrong { using IsRelocatable = int; };", 0), ("Union", "union Union { int a; float b; };", 1), ("Enum", "enum Enum { E1, E2 };", 1), ("EnumClass", "enum class EnumClass : char { A };", 1), ("Int", "using Int = int;", 1), ("Ptr", "using Ptr = void *;", 1), ("TString", "using TString = std::string;", 0),
    ("Arr", "using Arr = char[4];", 2), ("Arr2", "using Arr2 = Pod[2];", 2), ("ArrStr", "using ArrStr = std::string[2];", 0), ("VecI", "using VecI = std::vector<int>;", 0), ("Final", "struct Final final { int x; };", 1), ("Spec", "struct Spec { ~Spec(); };", 1), ("SpecNot", "struct SpecNot { int x; };", 0), ("Lambda", "struct Lambda { void (*f)(int); };", 1), ("Inherit", "struct Inherit : OptIn { };", 1),
]
SPEC = "#include \"rust/cxx.h\"\nnamespace rust { template <> struct IsRelocatable<ns::Spec> : ::std::true_type {}; template <> struct IsRelocatable<ns::SpecNot> : ::std::false_type {}; }"
CUSES = {"arg": ("fn %s(x: Y);", 1), "ret": ("fn %s() -> Y;", 1), "slice": ("fn %s(x: &[Y]);", 1), "mut-slice": ("fn %s(x: &mut [Y]);", 1), "mut": ("fn %s(x: &mut Y);", 1), "mut-ret": ("fn %s(x: &mut Y) -> &mut Y;", 1), "vec": ("fn %s(x: Vec<Y>);", 2), "vec-ref": ("fn %s(x: &Vec<Y>);", 2), "result": ("fn %s() -> Result<Y>;", 1), "ref": ("fn %s(x: &Y);", 0), "pin": ("fn %s(x: Pin<&mut Y>);", 0), "unique": ("fn %s(x: UniquePtr<Y>);", 0), "shared": ("fn %s() -> SharedPtr<Y>;", 0), "vector": ("fn %s(x: &CxxVector<Y>);", 0), "none": ("", 0), "field": ("struct %s { x: Y }", 2), "box": ("fn %s(x: Box<Y>);", 1)}


def asserted(ck, n):
    """In C++, a type used by value is verified to be movable by Rust."""
    r = random.Random("%d/%s/c27/cxx" % (SEED, TIER)); jobs = []
    for i in range(n):
        name, _, rel = CXXTYPES[i % len(CXXTYPES)]
        uses = r.sample(sorted(CUSES), r.choice([1, 1, 2, 3])) if i >= len(CXXTYPES) else [r.choice([u for u in CUSES if CUSES[u][1]])]
        if rel == 2 or name in ("ArrStr",): uses = [u for u in uses if u in ("vec", "vec-ref", "field", "arg", "ret", "result")] or ["vec"]
        if name == "PrivateDtor": uses = [u for u in uses if u not in ("unique", "shared", "vector")] or ["arg"]   # cannot be destroyed from there
        jobs.append((i, name, rel, uses, r.random() < .5, r.random() < .4, r.choice([("clang++", "c++11"), ("g++", "c++17"), ("clang++", "c++20"), ("g++", "c++11"), ("g++", "c++20"), ("clang++", "c++14")])))
    hdr = "#pragma once\n#include <string>\n#include <memory>\n#include <type_traits>\n#include <vector>\nnamespace ns {\n" + "\n".join(d for _, d, _ in CXXTYPES) + "\n}\n" + SPEC + "\n"
    def one(j):
        i, name, rel, uses, rust, fnlate, (cxx, std) = j
        ext, rs, items = [], [], []
        for k, u in enumerate(uses):
            decl, need = CUSES[u]; x = "u%d" % k
            if u == "field": items.append(decl.replace("%s", "S%d" % k))
            elif u == "none": pass
            elif (rust or u == "box") and u not in ("mut-ret",): rs.append(decl % x)
            else: ext.append(decl % x)
        ext.insert(len(ext) if fnlate else 0, "#[namespace = \"ns\"] #[cxx_name = \"%s\"] type Y = super::Y;" % name)
        blocks = ["unsafe extern \"C++\" { include!(\"t.h\"); %s }" % " ".join(ext)] + (["extern \"Rust\" { %s }" % " ".join(rs)] if rs else []) + items
        src = "#[cxx::bridge] mod ffi { %s }" % " ".join(blocks if i % 2 else blocks[::-1])
        if "box" in uses: return   # Box of an extern type: refused by the generator
        g = units.vgen().gen(src)
        if g[0] != "OK": raise InfraError("%s: %s" % (g, src))
        d = os.path.join(ck.dir, "cxx%d" % i); os.makedirs(d)
        need = [CUSES[u][1] for u in uses]
        ok = rel == 1 or not any(need) or (rel == 2 and all(x in (0, 2) for x in need))
        # what the assertion says; the functions called are declared as templates would be: with what the bridge generates
        decls = []
        Y = "ns::" + name
        sig = {"arg": "void %s(" + Y + ")", "ret": Y + " %s()", "slice": "void %s(::rust::Slice<const " + Y + ">)", "mut-slice": "void %s(::rust::Slice<" + Y + ">)", "mut": "void %s(" + Y + " &)", "mut-ret": Y + " &%s(" + Y + " &)", "vec": "void %s(::rust::Vec<" + Y + ">)", "vec-ref": "void %s(const ::rust::Vec<" + Y + "> &)", "result": Y + " %s()", "ref": "void %s(const " + Y + " &)", "pin": "void %s(" + Y + " &)", "unique": "void %s(::std::unique_ptr<" + Y + ">)", "shared": "::std::shared_ptr<" + Y + "> %s()", "vector": "void %s(const ::std::vector<" + Y + "> &)"}
        for k, u in enumerate(uses):
            if any(e.startswith("fn u%d(" % k) for e in ext): decls.append(sig[u] % ("u%d" % k) + ";")
        open(d + "/t.h", "w").write(hdr + "\n".join(decls) + "\n")
        open(d + "/b.cc", "w").write(g[2]); open(d + "/b.rs.h", "w").write(g[1])
        x = run([cxx, "-std=" + std, "-fsyntax-only", "-w", "-I", d, "-I", cxx_include_dir(), d + "/b.cc"])
        ck.count(1, ("cxx", name, tuple(sorted(uses))))
        n = ck.notes.setdefault("cxx", {"accepted": 0, "refused": 0})
        with ck.lock: n["accepted" if x.rc == 0 else "refused"] += 1
        hit = "should be trivially move constructible and trivially destructible" in x.err
        if not ok and (x.rc == 0 or not hit and rel != 2 and name != "ArrStr"): ck.violation("cxx/%s/%s" % (name, "+".join(uses)), "%s used by value (%s) is %s by %s %s\n%s\n%s" % (dict((a, b) for a, b, _ in CXXTYPES)[name], uses, "accepted" if x.rc == 0 else "refused for another reason", cxx, std, src, x.err[:1500]), {"bridge.rs": src, "b.cc": g[2], "t.h": hdr})
        if ok and hit: ck.violation("cxx/%s/%s/refused" % (name, "+".join(uses)), "%s used as %s is refused by %s %s\n%s\n%s" % (dict((a, b) for a, b, _ in CXXTYPES)[name], uses, cxx, std, src, x.err[:1500]), {"bridge.rs": src, "b.cc": g[2], "t.h": hdr})
        if ok and x.rc and not hit: raise InfraError("%s %s %s: %s\n%s" % (name, uses, cxx, x.err[:1500], src))
        shutil.rmtree(d)
    pmap(one, jobs)


def program(r, i):
    """Two or three bridges over the same types; values made through one are used through the others."""
    ns = r.choice(["", "n", "n::m"]); att = "namespace = \"%s\"" % ns; C = "::" + (ns + "::" if ns else "")
    nb = r.choice([2, 3]); names = {k: (k if r.random() < .5 else "Cxx" + k) for k in ("Sh", "En", "Op", "Tr", "Ru")}
    ren = lambda k: "" if names[k] == k else "#[cxx_name = \"%s\"] " % names[k]
    c = {k: C + v for k, v in names.items()}
    files = {}
    files["types.h"] = "#pragma once\n#include \"rust/cxx.h\"\n#include <memory>\n#include <string>\n#include <vector>\n%s\nstruct %s { int64_t a; double b; };\nclass %s { public: %s(int64_t v) : v(v), s(std::to_string(v)) { ++live; } ~%s() { --live; } int64_t get() const { return v + (int64_t)s.size(); } void add(int64_t x) { v += x; } static int live; int64_t v; std::string s; };\n%s\n" % ("".join("namespace %s { " % x for x in ns.split("::") if x), names["Tr"], names["Op"], names["Op"], names["Op"], "}" * len([x for x in ns.split("::") if x]))
    base = "#[cxx::bridge] pub mod ffi { #[%s] %s#[derive(Debug, Clone, PartialEq)] struct Sh { x: u64, s: String, v: Vec<u16> } #[%s] %s#[derive(Debug)] enum En { A = 3, B = 250 } extern \"Rust\" { #[%s] %s#[derive(ExternType)] type Ru; fn ru_get(self: &Ru) -> u64; fn make_ru(x: u64) -> Box<Ru>; } unsafe extern \"C++\" { include!(\"types.h\"); #[%s] %stype Op; #[%s] %stype Tr = crate::Tr; } impl UniquePtr<Op> {} impl SharedPtr<Op> {} impl CxxVector<Op> {} impl UniquePtr<Sh> {} impl SharedPtr<Sh> {} impl CxxVector<Sh> {} impl Vec<Sh> {} impl Vec<Tr> {} impl Vec<En> {} impl CxxVector<Tr> {} impl UniquePtr<Tr> {} }" % (att, ren("Sh"), att, ren("En"), att, ren("Ru"), att, ren("Op"), att, ren("Tr"))
    files["ffi0.rs"] = base
    rust = ["#![allow(warnings)]", "#[path=\"ffi0.rs\"] pub mod b0;", "pub use b0::ffi::{Sh, En, Op};", "#[repr(C)] #[derive(Clone, Copy, PartialEq, Debug)] pub struct Tr { pub a: i64, pub b: f64 }", "unsafe impl cxx::ExternType for Tr { type Id = cxx::type_id!(\"%s\"); type Kind = cxx::kind::Trivial; }" % c["Tr"].lstrip(":"), "pub struct Ru(u64);", "impl Ru { fn ru_get(&self) -> u64 { self.0 } } fn make_ru(x: u64) -> Box<Ru> { Box::new(Ru(x)) }"]
    # ffi0 refers to names of the crate root
    files["ffi0.rs"] = "use crate::{Ru, make_ru};\n" + base
    main_h, main_c, checks = [], [], []
    for b in range(1, nb + 1):
        p = "b%d_" % b; bns = r.choice(["", "q%d" % b, "n"]); B = "::" + (bns + "::" if bns else "")
        al = "".join("#[%s] %stype %s = crate::%s; " % (att, ren(k), k, {"Sh": "Sh", "En": "En", "Op": "Op", "Tr": "Tr", "Ru": "Ru"}[k]) for k in r.sample(["Sh", "En", "Op", "Tr", "Ru"], 5))
        cf = ["fn %smk_sh(x: u64) -> Sh;", "fn %sup_sh(s: &mut Sh);", "fn %ssum_sh(s: &[Sh]) -> u64;", "fn %svec_sh(v: Vec<Sh>) -> Vec<Sh>;", "fn %spass_en(e: En) -> En;", "fn %smk_op(x: i64) -> UniquePtr<Op>;", "fn %sadd_op(o: Pin<&mut Op>, x: i64);", "fn %sget_op(o: &Op) -> i64;", "fn %sshare_op(o: UniquePtr<Op>) -> SharedPtr<Op>;", "fn %svector_op(n: usize) -> UniquePtr<CxxVector<Op>>;", "fn %sswap_tr(t: Tr) -> Tr;", "fn %smut_tr(t: &mut Tr);", "fn %stake_uptr_sh(s: UniquePtr<Sh>) -> u64;", "fn %suse_ru(r: &Ru) -> u64;", "fn %sid_op(o: &Op) -> usize;", "fn %stake_vec_tr(v: &Vec<Tr>) -> i64;"]
        rf = ["fn %srs_sh(s: Sh) -> Sh;", "fn %srs_op(o: &Op) -> usize;", "fn %srs_tr(t: Tr) -> Tr;", "fn %srs_en(e: En) -> u8;", "fn %srs_uop(o: UniquePtr<Op>) -> UniquePtr<Op>;"]
        cf = [x % p for x in cf]; rf = [x % p for x in rf]
        r.shuffle(cf)
        files["ffi%d.rs" % b] = "use crate::{%s};\n#[cxx::bridge%s] pub mod ffi { unsafe extern \"C++\" { include!(\"impl.h\"); %s %s } extern \"Rust\" { %s } }" % (", ".join(p + "rs_" + x for x in ("sh", "op", "tr", "en", "uop")), "(namespace = \"%s\")" % bns if bns else "", al, " ".join(cf), " ".join(rf))
        rust.append("#[path=\"ffi%d.rs\"] pub mod b%d;" % (b, b))
        rust.append("fn {p}rs_sh(mut s: Sh) -> Sh {{ s.x += 1; s.s.push('r'); s.v.push(9); s }} fn {p}rs_op(o: &Op) -> usize {{ o as *const Op as usize }} fn {p}rs_tr(t: Tr) -> Tr {{ Tr {{ a: t.a + 1, b: t.b * 2.0 }} }} fn {p}rs_en(e: En) -> u8 {{ e.repr }} fn {p}rs_uop(o: cxx::UniquePtr<Op>) -> cxx::UniquePtr<Op> {{ o }}".format(p=p))
        S, E, O, T, R = c["Sh"], c["En"], c["Op"], c["Tr"], c["Ru"]
        op, cl = ("namespace %s {" % bns, "}") if bns else ("", "")
        D = ["{S} {p}mk_sh(uint64_t x)", "void {p}up_sh({S} &s)", "uint64_t {p}sum_sh(::rust::Slice<const {S}> s)", "::rust::Vec<{S}> {p}vec_sh(::rust::Vec<{S}> v)", "{E} {p}pass_en({E} e)", "::std::unique_ptr<{O}> {p}mk_op(int64_t x)", "void {p}add_op({O} &o, int64_t x)", "int64_t {p}get_op(const {O} &o)", "::std::shared_ptr<{O}> {p}share_op(::std::unique_ptr<{O}> o)", "::std::unique_ptr<::std::vector<{O}>> {p}vector_op(::std::size_t n)", "{T} {p}swap_tr({T} t)", "void {p}mut_tr({T} &t)", "uint64_t {p}take_uptr_sh(::std::unique_ptr<{S}> s)", "uint64_t {p}use_ru(const {R} &r)", "::std::size_t {p}id_op(const {O} &o)", "int64_t {p}take_vec_tr(const ::rust::Vec<{T}> &v)"]
        X = ["{{ return {{x, ::rust::String(\"c\"), {{}}}}; }}", "{{ s = {B}{p}rs_sh(std::move(s)); s.x *= 3; }}", "{{ uint64_t t = 0; for (auto &e : s) t += e.x + e.v.size() + e.s.size(); return t; }}", "{{ v.push_back({p}mk_sh(77)); return v; }}", "{{ return {B}{p}rs_en(e) == static_cast<uint8_t>({E}::A) ? {E}::B : {E}::A; }}", "{{ return ::std::unique_ptr<{O}>(new {O}(x)); }}", "{{ o.add(x); }}", "{{ return o.get(); }}", "{{ return {B}{p}rs_uop(std::move(o)); }}", "{{ ::std::unique_ptr<::std::vector<{O}>> v(new ::std::vector<{O}>()); v->reserve(n); for (::std::size_t i = 0; i < n; i++) v->emplace_back((int64_t)i); return v; }}", "{{ t = {B}{p}rs_tr(t); return {{(int64_t)t.b, (double)t.a}}; }}", "{{ t.a = -t.a; }}", "{{ return s ? s->x : 0; }}", "{{ return r.ru_get() + {n0}make_ru(5)->ru_get(); }}", "{{ return {B}{p}rs_op(o) == reinterpret_cast<::std::size_t>(&o) ? 1 : 0; }}", "{{ int64_t t = 0; for (auto &x : v) t += x.a; return t; }}"]
        f = dict(p=p, S=S, E=E, O=O, T=T, R=R, B=B, n0="::")
        main_h.append("%s %s %s" % (op, " ".join(x.format(**f) + ";" for x in D), cl)); main_c.append("%s %s %s" % (op, "\n".join(x.format(**f) + " " + y.format(**f) for x, y in zip(D, X)), cl))
    rust.append("macro_rules! eq { ($a:expr, $b:expr) => { { let (a, b) = ($a, $b); unsafe { N += 1; } if a != b { println!(\"FAIL {}: {:?} != {:?}\", stringify!($a), a, b); } } } } static mut N: usize = 0;")
    body = []
    for x in range(1, nb + 1):
        for y in range(1, nb + 1):
            P, Q = "b%d::ffi::b%d_" % (x, x), "b%d::ffi::b%d_" % (y, y)
            v = r.randrange(1 << 40)
            body.append("""{ let mut s = PPmk_sh(VV); QQup_sh(&mut s); eq!((s.x, s.s.as_str(), s.v.as_slice()), ((VV + 1) * 3, "cr", &[9u16][..])); PPup_sh(&mut s); eq!(s.x, ((VV + 1) * 3 + 1) * 3); eq!(s.s.as_str(), "crr");
 let v = PPvec_sh(vec![s.clone()]); let v = QQvec_sh(v); eq!(v.len(), 3); eq!(PPsum_sh(&v), s.x + 5 + 2 * 78); eq!(QQsum_sh(&v[1..]), 2 * 78); eq!(&v[0], &s);
 eq!(QQtake_uptr_sh(cxx::UniquePtr::new(PPmk_sh(3))), 3); eq!(PPtake_uptr_sh(cxx::UniquePtr::null()), 0);
 eq!(PPpass_en(QQpass_en(En::A)), En::A); eq!(QQpass_en(En::A), En::B);
 let mut o = PPmk_op(100); QQadd_op(o.pin_mut(), 23); eq!(PPget_op(&o), 126); eq!(QQget_op(&o), 126); eq!(QQid_op(&o), 1); let a = &*o as *const Op; let sh = QQshare_op(o); eq!(&*sh as *const Op, a); let t = sh.clone(); drop(sh); eq!(PPget_op(&t), 126); drop(t);
 let mut vec = PPvector_op(5); eq!(vec.iter().map(|o| QQget_op(o)).sum::<i64>(), 15); for o in vec.pin_mut() { QQadd_op(o, 10) } eq!(PPget_op(vec.get(4).unwrap()), 15);
 let mut t = QQswap_tr(Tr { a: VV as i64, b: 4.0 }); eq!(t, Tr { a: 8, b: (VV + 1) as f64 }); PPmut_tr(&mut t); eq!(t.a, -8); eq!(QQtake_vec_tr(&vec![t, t, PPswap_tr(t)]), -16 + ((VV + 1) * 2) as i64);
 let r = make_ru(VV); eq!(PPuse_ru(&r), VV + 5); eq!(QQuse_ru(&r), VV + 5); }""".replace("PP", P).replace("QQ", Q).replace("VV", "%du64" % v).replace("u64 as", "u64 as"))
    rust.append("#[no_mangle] pub extern \"C\" fn t_main() -> usize { %s unsafe { N } }" % "\n".join(body))
    files["unit.rs"] = "\n".join(rust)
    files["impl.h"] = "#pragma once\n#include \"types.h\"\n#include \"ffi0.rs.h\"\n" + "\n".join(main_h)
    files["main.cc"] = "#include \"impl.h\"\n%s\n#include <cstdio>\nint %s::live = 0;\n%s\nextern \"C\" std::size_t t_main();\nint main() { std::size_t n = t_main(); std::printf(\"DONE %%zu live %%d\\n\", n, %s::live); }\n" % ("\n".join("#include \"ffi%d.rs.h\"" % b for b in range(1, nb + 1)), c["Op"], "\n".join(main_c), c["Op"])
    return files


def shared_values(ck, n):
    def one(i):
        r = random.Random("%d/%s/c27/prog%d" % (SEED, TIER, i)); files = program(r, i); d = os.path.join(ck.dir, "prog%d" % i)
        try: exe = units.build_plain(files, d, cxx=r.choice(["clang++", "clang++"]), std=r.choice(["c++11", "c++17", "c++20"]), san="asan")
        except units.BuildFailure as e:
            ck.violation("program/" + e.stage.split()[0], "a program sharing types between bridges fails to build (%s)\n%s" % (e.stage, e.text), e.files); return
        x = run([exe], timeout=120); m = re.search(r"DONE (\d+) live (-?\d+)", x.out)
        fails = [l for l in x.out.splitlines() if l.startswith("FAIL")]
        if x.rc or fails or not m or m.group(2) != "0": ck.violation("program/run", "rc %s\n%s\n%s" % (x.rc, x.out[-2000:], x.err[-3000:]), dict(files)); return
        ck.count(int(m.group(1)), ("program", i))
        with ck.lock: ck.notes["values_compared"] = ck.notes.get("values_compared", 0) + int(m.group(1))
        shutil.rmtree(d)
    pmap(one, range(n), 4)


def main(ck):
    ck.rule = ("an evaluation is one declaration whose Id was compared with all others of its program, one bridge judged by the real compiler (identity or kind), one generated source judged by a C++ compiler, or one value compared after passing through two bridges; "
               "distinct counts distinct (kind of declaration or use, expected verdict, error code)")
    rtdeps("none"); rtdeps("asan"); vgen_bin()
    jobs = [lambda i=i: same_ids(ck, i, 150) for i in range(10 if THOROUGH else 2)] + [lambda: same_ids(ck, 100, 0, alphabet())]
    jobs += [lambda: shared_values(ck, 16 if THOROUGH else 3), lambda: verified(ck, 4000 if THOROUGH else 400), lambda: kinds(ck, 20 if THOROUGH else 2), lambda: generic(ck, 24 if THOROUGH else 3), lambda: asserted(ck, 1200 if THOROUGH else 120)]
    pmap(lambda f: f(), jobs, 5)
