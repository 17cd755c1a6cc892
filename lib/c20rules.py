"""Rules that are not about the grammar of types: (key, generator must reject too, bad, good).

bad and good are lists of (block, text): block is top (shared item), Rust,
C++ (unsafe extern), C++safe, impl, out (outside of the bridge)."""

R = []
def rule(key, bad, good=None, gen=True): R.append((key, gen, bad, good))
def top(t): return ("top", t)
def ru(t): return ("Rust", t)
def cx(t): return ("C++", t)
def cs(t): return ("C++safe", t)
def im(t): return ("impl", t)
def out(t): return ("out", t)
IMPLD = lambda name, sig="()": out("pub fn %s%s { loop {} }" % (name, sig))

# unsafety
for i, (sig, extra) in enumerate([("();", []), ("(x: u8) -> u8;", []), ("(x: &CxxString) -> Result<()>;", []), ("(self: &Tq) -> u8;", [cs("type Tq;")]), ("(s: &str);", [])]):
    rule("unsafe-block/%d" % i, extra + [cs("fn qf" + sig)], extra + [cs("unsafe fn qf" + sig)])
rule("unsafe-block/extern-struct", [top("struct Sq { x: u8 }"), cs("type Sq;")], [top("struct Sq { x: u8 }"), cx("type Sq;")])
rule("unsafe-block/lifetime", [cs("unsafe fn qf<'a>(x: &'a u8) -> &'a u8;")], [cx("fn qf<'a>(x: &'a u8) -> &'a u8;")])
rule("unsafe-block/lifetime-method", [cs("type Tq;"), cs("unsafe fn qf<'a>(self: &'a Tq) -> &'a u8;")], [cx("type Tq;"), cx("fn qf<'a>(self: &'a Tq) -> &'a u8;")])
rule("rust-lifetime", [ru("fn qf<'a>(x: &'a u8) -> &'a u8;"), out("fn qf<'a>(x: &'a u8) -> &'a u8 { x }")], [ru("unsafe fn qf<'a>(x: &'a u8) -> &'a u8;"), out("fn qf<'a>(x: &'a u8) -> &'a u8 { x }")])
rule("rust-lifetime/method", [ru("type Rq;"), ru("fn qf<'a>(self: &'a Rq) -> &'a str;"), out("pub struct Rq; impl Rq { fn qf<'a>(&'a self) -> &'a str { loop {} } }")],
     [ru("type Rq;"), ru("unsafe fn qf<'a>(self: &'a Rq) -> &'a str;"), out("pub struct Rq; impl Rq { fn qf<'a>(&'a self) -> &'a str { loop {} } }")])
rule("implementation-unsafe", [ru("fn qf(x: i32);"), out("unsafe fn qf(x: i32) {}")], [ru("unsafe fn qf(x: i32);"), out("unsafe fn qf(x: i32) {}")], gen=False)
rule("implementation-unsafe/method", [ru("type Rq;"), ru("fn qf(self: &Rq);"), out("pub struct Rq; impl Rq { unsafe fn qf(&self) {} }")], [ru("type Rq;"), ru("unsafe fn qf(self: &Rq);"), out("pub struct Rq; impl Rq { unsafe fn qf(&self) {} }")], gen=False)

# receivers
for lang, blk, t2 in (("cxx", cx, []), ("rust", ru, [out("pub struct Tq; pub struct Uq; impl Tq { fn qf(&self) {} }")])):
    for i, s in enumerate(["&self", "self: &Self", "&mut self", "self: &mut Self"]):
        rule("unnamed-receiver/%s/%d" % (lang, i), [blk("type Tq; type Uq; fn qf(%s);" % s)] + t2, ([(blk("")[0] + "!", "type Tq; fn qf(%s);" % s)] + t2) if i < 2 else None)
    rule("unnamed-receiver/%s/none" % lang, [(blk("")[0] + "!", "fn qf(&self);")], None)
for i, s in enumerate(["&Nope", "&u8", "&CxxString", "&String", "&str", "&&Tq", "&UniquePtr<Tq>", "&Vec<u8>", "Box<Tq>", "Tq", "UniquePtr<Tq>", "&[Tq]", "*const Tq", "&Eq_", "&mut Eq_", "&mut Tq", "Pin<Tq>", "Pin<&Nope>", "fn(Tq)", "&CxxVector<Tq>"]):
    rule("receiver/cxx/%d" % i, [top("enum Eq_ { A }"), cx("type Tq;"), cx("fn qf(self: %s);" % s)], [top("enum Eq_ { A }"), cx("type Tq;"), cx("fn qf(self: %s);" % ("Pin<&mut Tq>" if i % 2 else "&Tq"))])
for i, s in enumerate(["&Nope", "&u8", "&String", "&str", "Box<Rq>", "Rq", "&Vec<Rq>", "*mut Rq", "&Eq_"]):
    rule("receiver/rust/%d" % i, [top("enum Eq_ { A }"), ru("type Rq;"), ru("fn qf(self: %s);" % s), out("pub struct Rq; impl Rq { fn qf(&self) {} }")], [top("enum Eq_ { A }"), ru("type Rq;"), ru("fn qf(self: &Rq);"), out("pub struct Rq; impl Rq { fn qf(&self) {} }")])
for i, s in enumerate(["&Eq_", "&mut Eq_", "Pin<&mut Eq_>"]): rule("receiver/cxx/extern-enum/%d" % i, [top("enum Eq_ { A }"), cx("type Eq_;"), cx("fn qf(self: %s);" % s)], [top("enum Eq_ { A }"), cx("type Eq_;"), cx("fn qf(x: %s);" % ("&Eq_" if i == 0 else "&mut Eq_"))])
rule("receiver/by-value", [cx("type Tq;"), cx("fn qf(self);")]); rule("receiver/by-value-mut", [ru("type Rq;"), ru("fn qf(mut self);"), out("pub struct Rq; impl Rq { fn qf(self) {} }")])
rule("receiver/last", [cx("type Tq;"), cx("fn qf(x: u8, self: &Tq);")]); rule("receiver/twice", [cx("type Tq;"), cx("fn qf(self: &Tq, self: &Tq);")])

# mutable results of C++ functions
for j, ret in enumerate(["&mut u8", "&mut [u8]", "Pin<&mut Tq>", "Pin<&mut CxxString>", "&mut Sq", "Result<&mut u8>", "Result<Pin<&mut Tq>>", "Result<&mut [Sq]>", "&mut Box<Rq>", "&mut String", "&mut &str", "&mut [String; 2]"]):
    env = [top("struct Sq { x: u8 }"), cx("type Tq;"), ru("type Rq;"), out("pub struct Rq;"), top("struct Lq<'a> { s: &'a str }")]
    for i, a in enumerate(["x: &u8", "x: &Tq, y: u8", "self: &Tq", "x: &[u8]", "x: &str", "x: &UniquePtr<Tq>", "x: &CxxVector<Tq>", "x: &Box<Rq>", "self: &Sq, x: &Sq", "x: &u8, cb: fn(&mut u8)", "x: &Sq, y: String, z: Vec<u8>", "self: &Rq2"]):
        if a.startswith("self: &Rq2"): continue
        good = ["x: &mut u8", "x: &u8, y: &mut Tz", "self: Pin<&mut Tq>", "x: &mut [u8]", "x: Lq", "x: Pin<&mut Tq>"][(i + j) % 6].replace("Tz", "Sq")
        if good.count("&") > 1 and not good.startswith("self"): good = "x: &mut u8"
        rule("mut-return/%d/%d" % (j, i), env + [cx("fn qf(%s) -> %s;" % (a, ret if "self" in a or a.count("&") == 1 or "cb" not in a else ret))], env + [cx("fn qf(%s) -> %s;" % (good, ret))])
    rule("mut-return/%d/unsafe" % j, env + [cx("fn qf(x: &u8) -> %s;" % ret)], env + [cx("unsafe fn qf(x: &u8) -> %s;" % ret)])

YQ = "pub struct Yq(u8); unsafe impl cxx::ExternType for Yq { type Id = cxx::type_id!(\"XQ\"); type Kind = cxx::kind::Opaque; }"

# names
for n in ["Box", "UniquePtr", "SharedPtr", "WeakPtr", "Vec", "CxxVector", "str", "bool", "c_char", "u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "f32", "f64", "CxxString", "String"]:
    for k, mk in (("struct", lambda m: [top("struct %s { x: u16 }" % m)]), ("enum", lambda m: [top("enum %s { A }" % m)]), ("cxx", lambda m: [cx("type %s;" % m)]), ("rust", lambda m: [ru("type %s;" % m), out("pub struct %s;" % m)]), ("alias", lambda m: [cx("type %s = super::Yq;" % m), out(YQ)])):
        rule("reserved/%s/%s" % (k, n), mk(n), mk(n + "Q"))
def fixalias(items):
    n = [t.split()[1] for b, t in items if b == "C++" and " = super::Yq" in t]
    return [(b, t.replace("XQ", n[0])) if n else (b, t) for b, t in items]
R[:] = [(k, g, fixalias(bad), good and fixalias(good)) for k, g, bad, good in R]
for n in ["cxxbridge1", "cxxbridge_x", "cxxbridgeq", "a__b", "__q", "q__"]:
    sub = {"a__b": "a_b", "__q": "_q", "q__": "q_"}.get(n, "xbridge")
    for k, t in (("struct", [top("struct %s { x: u8 }")]), ("field", [top("struct Sq { %s: u8 }")]), ("enum", [top("enum %s { A }")]), ("variant", [top("enum Eq_ { %s }")]), ("fn", [cx("fn %s();")]), ("arg", [cx("fn qf(%s: u8);")]), ("rust-fn", [ru("fn %s();"), out("fn %s() {}")]),
                 ("rust-arg", [ru("fn qf(%s: u8);"), out("fn qf(x: u8) {}")]), ("type", [cx("type %s;")]), ("rust-type", [ru("type %s;"), out("pub struct %s;")]), ("method", [cx("type Tq;"), cx("fn %s(self: &Tq);")]),
                 ("namespace", [top("#[namespace = \"%s\"] struct Sq { x: u8 }")]), ("inner-namespace", [cx("#[namespace = \"a::%s::c\"] fn qf();")]), ("ns-path", [cx("#[namespace = a::%s] type Tq;")]), ("cxx-name", [cx("#[cxx_name = \"%s\"] fn qf();")]), ("cxx-name/type", [cx("#[cxx_name = \"%s\"] type Tq;")]),
                 ("cxx-name/field", [top("struct Sq { #[cxx_name = \"%s\"] x: u8 }")]), ("cxx-name/variant", [top("enum Eq_ { #[cxx_name = \"%s\"] A }")]), ("cxx-name/struct", [top("#[cxx_name = \"%s\"] struct Sq { x: u8 }")])):
        rule("identifier/%s/%s" % (k, n), [(b, x.replace("%s", n)) for b, x in t], [(b, x.replace("%s", sub)) for b, x in t])
for n in ["cxxbridge1", "cxxbridgeq"]: rule("identifier/rust-name/" + n, [cx("#[rust_name = \"%s\"] fn qf();" % n)], [cx("#[rust_name = \"q_\"] fn qf();")])
kinds = {"struct": [top("struct Nq { x: u8 }")], "enum": [top("enum Nq { A }")], "cxx": [cx("type Nq;")], "rust": [ru("type Nq;"), out("pub struct Nq_; use Nq_ as Nq;")], "alias": [cx("type Nq = super::Yq;"), out(YQ.replace("XQ", "Nq"))]}
for a in kinds:
    for b in kinds:
        if {a, b} in ({"struct", "cxx"}, {"enum", "cxx"}): continue
        rule("duplicate/%s/%s" % (a, b), kinds[a] + [x for x in kinds[b] if x not in kinds[a] or x[0] != "out"], gen={a, b} not in ({"alias", "struct"}, {"alias", "enum"}))  # those are left to rustc
rule("duplicate/ok", [top("struct Nq { x: u8 }"), top("struct Nq { y: u8 }")], [top("struct Nq { x: u8 }"), cx("type Nq;"), top("enum Mq { A }"), cx("type Mq;")])
rule("duplicate/struct/cxx/cxx", [top("struct Nq { x: u8 }"), cx("type Nq;"), cx("type Nq;")]); rule("duplicate/cxx/struct/struct", [cx("type Nq;"), top("struct Nq { x: u8 }"), top("struct Nq { x: u8 }")])
rule("duplicate/enum/cxx/struct", [top("enum Nq { A }"), cx("type Nq;"), top("struct Nq { x: u8 }")])
rule("duplicate/fn/cxx", [cx("fn qf();"), cx("fn qf(x: u8);")], [cx("fn qf();"), cx("#[rust_name = \"qg\"] fn qf(x: u8);")]); rule("duplicate/fn/rust", [ru("fn qf();"), ru("fn qf();"), out("fn qf() {}")], [ru("fn qf();"), out("fn qf() {}")])
rule("duplicate/fn/both", [ru("fn qf();"), cx("fn qf();"), out("fn qf() {}")], [ru("fn qf();"), cx("fn qg();"), out("fn qf() {}")])
rule("duplicate/fn/rust_name", [cx("fn qf();"), cx("#[rust_name = \"qf\"] fn qg();")], [cx("fn qf();"), cx("#[rust_name = \"qh\"] fn qg();")])
rule("duplicate/method", [cx("type Tq;"), cx("fn qf(self: &Tq);"), cx("fn qf(self: &Tq, x: u8);")], [cx("type Tq;"), cx("type Uq;"), cx("fn qf(self: &Tq);"), cx("fn qf(self: &Uq, x: u8);"), cx("fn qf();")])
rule("duplicate/field", [top("struct Sq { x: u8, x: u8 }")], [top("struct Sq { x: u8, y: u8 }")], gen=False); rule("duplicate/variant", [top("enum Eq_ { A, A }")], [top("enum Eq_ { A, B }")], gen=False)
rule("duplicate/arg", [cx("fn qf(x: u8, x: u8);")], [cx("fn qf(x: u8, y: u8);")], gen=False)

# cycles
rule("cycle/self", [top("struct Sq { x: Sq }")], [top("struct Sq { x: Vec<Sq> }")]); rule("cycle/array", [top("struct Sq { x: [Sq; 2] }")], [top("struct Sq { x: Box<Sq> }")])
rule("cycle/two", [top("struct Sq { x: Uq }"), top("struct Uq { k: u8, x: Sq }")], [top("struct Sq { x: Uq }"), top("struct Uq { k: u8, x: UniquePtr<Sq> }")])
rule("cycle/three", [top("struct Sq { k: String, x: Uq }"), top("struct Uq { x: [[Wq; 2]; 3] }"), top("struct Wq { x: Sq }")], [top("struct Sq { k: String, x: Uq }"), top("struct Uq { x: [[Wq; 2]; 3] }"), top("struct Wq { x: SharedPtr<Sq> }")])
rule("cycle/tail", [top("struct Zq { x: Sq }"), top("struct Sq { x: Uq }"), top("struct Uq { x: Uq }")], [top("struct Zq { x: Sq }"), top("struct Sq { x: Uq, y: Uq }"), top("struct Uq { x: u8 }")])
rule("cycle/last-field", [top("struct Sq { a: u8, b: Vec<Sq>, c: Uq }"), top("struct Uq { a: Vec<Uq>, b: Sq }")], [top("struct Sq { a: u8, b: Vec<Sq>, c: Uq }"), top("struct Uq { a: Vec<Uq>, b: Vec<Sq> }")])

# shapes of items
for k, b, g in [("empty", "struct Sq {}", "struct Sq { x: u8 }"), ("unit", "struct Sq;", None), ("tuple", "struct Sq(u8);", None), ("generic", "struct Sq<T> { x: T }", "struct Sq<'a> { x: &'a u8 }"), ("const", "struct Sq<const N: usize> { x: u8 }", None), ("bounds", "struct Sq<'a, 'b: 'a> { x: &'a u8, y: &'b u8 }", "struct Sq<'a, 'b> { x: &'a u8, y: &'b u8 }"),
                ("where", "struct Sq where u8: Copy { x: u8 }", None), ("enum-generic", "enum Eq_<'a> { A }", "enum Eq_ { A }"), ("enum-where", "enum Eq_ where u8: Copy { A }", None), ("enum-data", "enum Eq_ { A(u8) }", None), ("enum-struct", "enum Eq_ { B, A { x: u8 } }", None), ("enum-unit-tuple", "enum Eq_ { A() }", None), ("enum-empty", "enum Eq_ {}", "#[repr(u8)] enum Eq_ {}"),
                ("repr", "#[repr(u128)] enum Eq_ { A }", "#[repr(u64)] enum Eq_ { A }"), ("repr-c", "#[repr(C)] enum Eq_ { A }", None), ("repr-float", "#[repr(f32)] enum Eq_ { A }", None), ("repr-packed", "#[repr(packed)] struct Sq { x: u8 }", None), ("repr-transparent", "#[repr(transparent)] struct Sq { x: u8 }", None), ("discriminant", "enum Eq_ { A = 1 + 1 }", "enum Eq_ { A = 2 }"), ("discriminant-str", "enum Eq_ { A = \"1\" }", None), ("overflow", "#[repr(u8)] enum Eq_ { A = 256 }", "#[repr(u8)] enum Eq_ { A = 255 }"), ("overflow-next", "#[repr(i8)] enum Eq_ { A = 127, B }", "#[repr(i8)] enum Eq_ { A = 126, B }"),
                ("derive", "#[derive(Foo)] struct Sq { x: u8 }", "#[derive(Clone)] struct Sq { x: u8 }"), ("derive-path", "#[derive(std::clone::Clone)] struct Sq { x: u8 }", None), ("derive-extern", "#[derive(ExternType)] struct Sq { x: u8 }", None), ("derive-enum-default", "#[derive(Default)] enum Eq_ { A }", "#[derive(Debug)] enum Eq_ { A }"), ("derive-enum-extern", "#[derive(ExternType)] enum Eq_ { A }", None),
                ("item-fn", "fn qf() {}", None), ("item-const", "const Q: u8 = 1;", None), ("item-static", "static Q: u8 = 1;", None), ("item-trait", "trait Q {}", None), ("item-mod", "mod q {}", None), ("item-use", "use std::mem;", None), ("item-type", "type Q = u8;", None), ("item-union", "union Q { x: u8 }", None), ("item-macro", "q!();", None),
                ("abi-c", "extern \"C\" { fn qf(); }", None), ("abi-none", "extern { fn qf(); }", None), ("abi-other", "unsafe extern \"Cxx\" { fn qf(); }", None), ("unsafe-rust", "unsafe extern \"Rust\" {}", "extern \"Rust\" {}"), ("foreign-static", "unsafe extern \"C++\" { static Q: u8; }", None), ("foreign-macro", "unsafe extern \"C++\" { q!(); }", None),
                ("include-garbage", "unsafe extern \"C++\" { include!(foo); }", "unsafe extern \"C++\" { include!(<vector>); }"), ("include-two", "unsafe extern \"C++\" { include!(\"a\" \"b\"); }", None), ("attr", "#[foo] struct Sq { x: u8 }", None), ("attr-fn", "unsafe extern \"C++\" { #[repr(u8)] fn qf(); }", None), ("attr-namespace-fn-field", "struct Sq { #[namespace = \"a\"] x: u8 }", None), ("attr-namespace-variant", "enum Eq_ { #[namespace = \"a\"] A }", None), ("attr-derive-field", "struct Sq { #[derive(Clone)] x: u8 }", None), ("attr-derive-fn", "unsafe extern \"C++\" { #[derive(Clone)] fn qf(); }", None), ("attr-cxxname-block", "#[cxx_name = \"x\"] unsafe extern \"C++\" { fn qf(); }", None)]:
    rule("shape/" + k, [top(b)], g and [top(g)])
for k, b, g in [("generic", "fn qf<T>(x: &T);", "fn qf<'a>(x: &'a u8);"), ("const", "fn qf<const N: usize>();", None), ("bound", "fn qf<'a, 'b: 'a>(x: &'a u8, y: &'b u8);", None), ("where", "fn qf() where u8: Copy;", None), ("variadic", "fn qf(x: u8, ...);", None), ("async", "async fn qf();", None), ("constfn", "const fn qf();", None), ("abi", "extern \"C\" fn qf();", None), ("body", "fn qf() {}", None), ("pattern", "fn qf((a, b): u8);", None), ("tuple-ret", "fn qf() -> (u8, u8);", None), ("impl-arg", "fn qf(x: impl Copy);", None), ("dyn", "fn qf(x: &dyn Fn());", None), ("never", "fn qf() -> !;", None), ("option", "fn qf() -> Option<u8>;", None), ("result-two", "fn qf() -> Result<u8, u8>;", "fn qf() -> Result<u8>;"), ("result-arg", "fn qf(x: Result<u8>);", None),
                ("array-zero", "fn qf(x: &[u8; 0]);", "fn qf(x: &[u8; 1]);"), ("array-const", "fn qf(x: &[u8; N]);", None), ("array-expr", "fn qf(x: &[u8; 1 + 1]);", None), ("array-str", "fn qf(x: &[u8; \"1\"]);", None), ("array-block", "fn qf(x: &[u8; { 1 }]);", None), ("cxx-path", "fn qf(x: cxx::UniquePtr<CxxString>);", "fn qf(x: UniquePtr<CxxString>);"), ("std-path", "fn qf(x: &std::string::String);", None), ("crate-path", "fn qf(x: &crate::Foo);", None), ("generic-arg", "fn qf(x: UniquePtr<CxxString, u8>);", None), ("no-arg", "fn qf(x: UniquePtr);", None), ("lifetime-arg", "fn qf(x: Box<'_>);", None), ("ptr-fn", "unsafe fn qf(x: *const fn());", None),
                ("fnptr-for", "fn qf(cb: for<'a> fn(&'a u8));", "fn qf(cb: fn(&u8));"), ("fnptr-variadic", "fn qf(cb: unsafe fn(u8, ...));", None), ("fnptr-result", "fn qf(cb: fn() -> Result<u8>);", "fn qf(cb: fn() -> u8);"), ("fnptr-ptr", "fn qf(cb: fn(*const u8));", "fn qf(cb: unsafe fn(*const u8));"), ("fnptr-ret", "fn qf() -> fn();", None), ("fnptr-fnptr", "fn qf(cb: fn(fn()));", None), ("static-lifetime", "fn qf<'static>(x: &'static u8);", "fn qf(x: &'static u8);")]:
    rule("fn/cxx/" + k, [cx(b)], g and [cx(g)])
    if "fn(" in (b + (g or "")).split("qf", 1)[1] or k in ("body", "fnptr-ret"): continue
    if g and "'a" in g: g = None
    rule("fn/rust/" + k, [ru(b.replace("fn qf<'static>", "unsafe fn qf<'static>") if k == "static-lifetime" else b), out("fn qf() {}")], None)
for k, b, g in [("bound", "type Tq: Clone;", "type Tq;"), ("bound-unknown", "type Tq: Foo;", None), ("generic", "type Tq<T>;", "type Tq<'a>;"), ("const", "type Tq<const N: usize>;", None), ("lifetime-bound", "type Tq<'a, 'b: 'a>;", None), ("derive", "#[derive(Clone)] type Tq;", None), ("derive-extern", "#[derive(ExternType)] type Tq;", None), ("static", "type Tq<'static>;", None), ("alias-derive", "#[derive(Clone)] type Tq = super::Yq;", "type Tq = super::Yq;"), ("alias-generic", "type Tq<T> = super::Yq;", None), ("attr", "#[repr(u8)] type Tq;", None), ("enum-attr", "#[foo] type Tq;", None)]:
    o = [out(YQ.replace("XQ", "Tq"))] if "Yq" in b else []
    rule("type/cxx/" + k, [cx(b)] + o, g and [cx(g)] + o)
for k, b, g in [("bound", "type Rq: Foo;", "type Rq;"), ("bound-clone", "type Rq: Clone;", None), ("generic", "type Rq<T>;", None), ("derive", "#[derive(Clone)] type Rq;", "#[derive(ExternType)] type Rq;"), ("alias", "type Rq = super::Rq;", None), ("alias-pub", "pub type Rq = crate::Rq;", None)]:
    rule("type/rust/" + k, [ru(b), out("pub struct Rq;")], g and [ru(g), out("pub struct Rq;")])
for k, b, g in [("items", "impl UniquePtr<Tq> { fn x() {} }", "impl UniquePtr<Tq> {}"), ("trait", "impl Clone for Tq {}", None), ("trait-container", "impl Clone for UniquePtr<Tq> {}", None), ("negative", "impl !UniquePtr<Tq> {}", None), ("negative-lifetime", "impl<'a> !SharedPtr<Cq<'a>> {}", "impl<'a> SharedPtr<Cq<'a>> {}"), ("generic", "impl<T> UniquePtr<T> {}", None), ("where", "impl UniquePtr<Tq> where u8: Copy {}", None), ("bare", "impl Tq {}", None), ("prim", "impl Vec<u8> {}", None), ("string", "impl UniquePtr<CxxString> {}", None), ("nested", "impl UniquePtr<CxxVector<Tq>> {}", "impl CxxVector<Tq> {}"), ("bound", "impl<'a: 'a> UniquePtr<Tq> {}", None), ("rust", "impl SharedPtr<Rq> {}", "impl SharedPtr<Tq> {}"), ("cxx-box", "impl Box<Tq> {}", "impl Box<Rq> {}"), ("static", "impl<'static> UniquePtr<Lq<'static>> {}", None)]:
    e = [cx("type Tq; type Cq<'a>;"), ru("type Rq;"), out("pub struct Rq;"), top("struct Lq<'a> { x: &'a u8 }")]
    rule("impl/" + k, e + [im(b)], g and e + [im(g)])
rule("fn/arg/static-lifetime-struct", [top("struct Lq<'static> { x: &'static u8 }")], [top("struct Lq<'a> { x: &'a u8 }")])

# left to rustc
for k, b, g in [("missing-lifetime", [top("struct Sq { x: &u8 }")], [top("struct Sq<'a> { x: &'a u8 }")]), ("unused-lifetime", [top("struct Sq<'a> { x: u8 }")], None), ("undeclared-lifetime", [cx("fn qf(x: &'q u8);")], None), ("too-many-lifetimes", [top("struct Lq<'a> { x: &'a u8 }"), cx("fn qf(x: Lq<'_, '_>);")], [top("struct Lq<'a> { x: &'a u8 }"), cx("fn qf(x: Lq<'_>);")]), ("no-source", [cx("fn qf() -> &u8;")], [cx("fn qf(x: &u8) -> &u8;")]), ("two-sources", [cx("fn qf(x: &u8, y: &u8) -> &u8;")], None), ("no-source-type", [cx("type Tq<'a>;"), cx("fn qf() -> UniquePtr<Tq>;")], [cx("type Tq<'a>;"), cx("fn qf(x: &u8) -> UniquePtr<Tq<'_>>;")]),
                ("copy", [top("#[derive(Copy, Clone)] struct Sq { x: String }")], [top("#[derive(Copy, Clone)] struct Sq { x: u8 }")]), ("copy-nested", [top("#[derive(Clone, Copy)] struct Sq { x: Uq }"), top("#[derive(Clone)] struct Uq { x: u8 }")], None), ("clone", [top("#[derive(Clone)] struct Sq { x: Uq }"), top("struct Uq { x: u8 }")], [top("#[derive(Clone)] struct Sq { x: Uq }"), top("#[derive(Clone)] struct Uq { x: u8 }")]), ("eq-float", [top("#[derive(PartialEq, Eq)] struct Sq { x: f32 }")], [top("#[derive(PartialEq)] struct Sq { x: f32 }")]), ("hash", [top("#[derive(Hash)] struct Sq { x: f64 }")], None), ("default", [top("#[derive(Default)] struct Sq { x: &'static mut u8 }")], None),
                ("drop", [top("struct Sq { x: u8 }"), out("impl Drop for ffi::Sq { fn drop(&mut self) {} }")], [top("struct Sq { x: u8 }"), out("impl ffi::Sq { fn drop(&mut self) {} }")]), ("drop-enum", [top("enum Eq_ { A }"), out("impl Drop for ffi::Eq_ { fn drop(&mut self) {} }")], None), ("unpin", [cx("type Tq;"), out("impl Unpin for ffi::Tq {}")], None), ("unpin-rust", [ru("type Rq;"), out("pub struct Rq(std::marker::PhantomPinned);")], [ru("type Rq;"), out("pub struct Rq(u8);")]), ("unsized", [ru("type Rq;"), out("pub struct Rq(str);")], None), ("unsized-slice", [ru("type Rq;"), out("pub struct Rq([u8]);")], None), ("foreign-type", [ru("type Rq;"), out("use std::string::String as Rq;")], None), ("foreign-box", [ru("type Rq;"), out("type Rq = Option<u8>;")], None),
                ("missing-type", [ru("type Rq;")], None), ("missing-fn", [ru("fn qf();")], None), ("error-display", [ru("fn qf() -> Result<()>;"), out("pub struct Er; fn qf() -> Result<(), Er> { loop {} }")], [ru("fn qf() -> Result<()>;"), out("fn qf() -> Result<(), String> { loop {} }")]), ("not-result", [ru("fn qf() -> Result<u8>;"), out("fn qf() -> u8 { 0 }")], None), ("box-alias", [cx("type Tq = super::Yq;"), cx("fn qf(x: Box<Tq>);"), out("pub struct Yq(str); unsafe impl cxx::ExternType for Yq { type Id = cxx::type_id!(\"Tq\"); type Kind = cxx::kind::Opaque; }")], None)]:
    rule("rustc/" + k, b, g, gen=False)
