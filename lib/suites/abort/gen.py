# return kind -> (bridge type, Rust expression, C++ type, C++ expression)
RK = {
 "unit": ("()", "()", "void", ""),
 "u8": ("u8", "7", "std::uint8_t", "7"),
 "bool": ("bool", "true", "bool", "true"),
 "f64": ("f64", "1.5", "double", "1.5"),
 "isize": ("isize", "-1", "rust::isize", "-1"),
 "string": ("String", "\"x\".repeat(40)", "rust::String", "rust::String(\"abc\")"),
 "vecu8": ("Vec<u8>", "vec![1; 40]", "rust::Vec<std::uint8_t>", "{}"),
 "vecs": ("Vec<String>", "vec![]", "rust::Vec<rust::String>", "{}"),
 "box": ("Box<R>", "Box::new(R::new())", "rust::Box<R>", "mk_r()"),
 "st": ("St", "St { a: 1, s: String::new(), b: Box::new(R::new()) }", "St", "mk_st()"),
 "pod": ("Pod", "Pod { a: 1, b: 2 }", "Pod", "{}"),
 "en": ("En", "En::B", "En", "En::B"),
 "up": ("UniquePtr<Opq>", "mk_opq()", "std::unique_ptr<Opq>", "mk_opq()"),
 "sp": ("SharedPtr<Opq>", "SharedPtr::null()", "std::shared_ptr<Opq>", "{}"),
 "upv": ("UniquePtr<CxxVector<u8>>", "CxxVector::new()", "std::unique_ptr<std::vector<std::uint8_t>>", "{}"),
 "arr": ("[u16; 3]", "[1, 2, 3]", "std::array<std::uint16_t, 3>", "{}"),
 "str": ("&'static str", "\"lit\"", "rust::Str", "{}"),
 "slice": ("&'static [u32]", "&[]", "rust::Slice<const std::uint32_t>", "{}"),
 "ref": ("&'static Opq", "static_opq()", "const Opq &", "static_opq()"),
 "vecr": ("Vec<R>", "vec![R::new()]", "rust::Vec<R>", "{}"),
}
def expand(files):
    rf, rd, cf, cd, cdef, cp, rp = [], [], [], [], [], [], []
    for k, (bt, re_, ct, ce) in RK.items():
        arrow = "" if bt == "()" else " -> " + bt
        rf.append(f"fn r_{k}(){arrow}; fn rr_{k}() -> Result<{bt}>; fn rd_{k}() -> Result<{bt}>; fn ra_{k}(a: Box<R>, s: String, v: Vec<R>){arrow}; fn rm_{k}(self: &R){arrow}; fn rn_{k}(self: &mut R) -> Result<{bt}>;")
        rd.append(f"fn r_{k}(){arrow} {{ trip(); {re_} }} fn rr_{k}() -> Result<{bt}, String> {{ trip(); Ok({re_}) }} fn rd_{k}() -> Result<{bt}, BadDisplay> {{ if armed() {{ Err(BadDisplay) }} else {{ Ok({re_}) }} }} fn ra_{k}(a: Box<R>, s: String, v: Vec<R>){arrow} {{ let _g = (a, s, v); trip(); {re_} }} impl R {{ fn rm_{k}(&self){arrow} {{ trip(); {re_} }} fn rn_{k}(&mut self) -> Result<{bt}, String> {{ trip(); Ok({re_}) }} }}")
        cp.append(f'{{"p.free.{k}", [] {{ Local l; arm(1); (void)r_{k}(); }}}}, {{"p.fallible.{k}", [] {{ Local l; arm(1); (void)rr_{k}(); }}}}, {{"p.display.{k}", [] {{ Local l; arm(1); (void)rd_{k}(); }}}}, {{"p.args.{k}", [] {{ Local l; rust::Vec<R> v = mk_rs(3); auto b = mk_r(); arm(1); (void)ra_{k}(std::move(b), "heap text that is long enough", std::move(v)); }}}}, {{"p.method.{k}", [] {{ Local l; auto b = mk_r(); arm(1); (void)b->rm_{k}(); }}}}, {{"p.method_mut.{k}", [] {{ Local l; auto b = mk_r(); arm(1); (void)b->rn_{k}(); }}}}')
        cf.append(f"fn c_{k}(){arrow}; fn cf_{k}(kind: u32) -> Result<{bt}>; fn ca_{k}(a: UniquePtr<Opq>, s: String, v: Vec<String>){arrow}; fn cm_{k}(self: &Opq){arrow}; fn cb_{k}(f: fn() -> u32){arrow};")
        ret = "" if ct == "void" else "return " + ce + ";"
        cd.append(f"{ct} c_{k}(); {ct} cf_{k}(std::uint32_t kind); {ct} ca_{k}(std::unique_ptr<Opq> a, rust::String s, rust::Vec<rust::String> v); {ct} cb_{k}(rust::Fn<std::uint32_t()> f);")
        files["unit.h"] = files["unit.h"].replace("@METHODS@", f"{ct} cm_{k}() const;\n@METHODS@")
        cdef.append(f"{ct} c_{k}() {{ Local l; boom(1); {ret} }} {ct} cf_{k}(std::uint32_t kind) {{ Local l; boom(kind); {ret} }} {ct} ca_{k}(std::unique_ptr<Opq> a, rust::String s, rust::Vec<rust::String> v) {{ Local l; boom(1); {ret} }} {ct} Opq::cm_{k}() const {{ Local l; boom(1); {ret} }} {ct} cb_{k}(rust::Fn<std::uint32_t()> f) {{ Local2 l; f(); {ret} }}")
        rp.append(f'("x.free.{k}", || {{ c_{k}(); }}), ("x.args.{k}", || {{ ca_{k}(mk_opq(), "t".repeat(50), vec!["v".repeat(50)]); }}), ("x.method.{k}", || {{ let o = mk_opq(); o.cm_{k}(); }}), ("x.int.{k}", || {{ let _ = cf_{k}(2); }}), ("x.cstr.{k}", || {{ let _ = cf_{k}(3); }}), ("x.pointer.{k}", || {{ let _ = cf_{k}(4); }}), ("x.class.{k}", || {{ let _ = cf_{k}(5); }}), ("p.callback.{k}", || {{ arm(1); cb_{k}(tripping); }}), ("p.nested.{k}", || {{ arm(1); call_r_{k}(); }})')
        cf.append(f"fn call_r_{k}();")
        cd.append(f"void call_r_{k}();")
        cdef.append(f"void call_r_{k}() {{ Local2 l; try {{ (void)r_{k}(); }} catch (...) {{ puts(\"CAUGHT\"); throw; }} }}")
    f = files
    f["ffi0.rs"] = f["ffi0.rs"].replace("@RF@", "\n".join(rf)).replace("@CF@", "\n".join(cf))
    f["unit.rs"] = f["unit.rs"].replace("@RD@", "\n".join(rd)).replace("@RP@", ",\n".join(rp))
    f["unit.h"] = f["unit.h"].replace("@CD@", "\n".join(cd)).replace("@METHODS@", "")
    f["main.cc"] = f["main.cc"].replace("@CDEF@", "\n".join(cdef)).replace("@CP@", ",\n".join(cp))
