T = [("o", "Opq", "Opq"), ("sp", "SP", "SP"), ("t", "Tri", "Tri"), ("r", "Renamed", "deep::er::CppName"), ("s", "CxxString", "std::string")]
T += [(p, p, c) for p, c in [("bool", "bool"), ("u8", "std::uint8_t"), ("u16", "std::uint16_t"), ("u32", "std::uint32_t"), ("u64", "std::uint64_t"), ("usize", "std::size_t"),
      ("i8", "std::int8_t"), ("i16", "std::int16_t"), ("i32", "std::int32_t"), ("i64", "std::int64_t"), ("isize", "rust::isize"), ("f32", "float"), ("f64", "double")]]
def expand(files):
    b = ""; ops = ""; tests = []; decl = ""
    for k, r, c in T:
        b += """#[cxx_name="mk_@k"] fn mk_@k(kind: u8) -> SharedPtr<@r>; #[cxx_name="adr"] fn adr_@k(p: &SharedPtr<@r>) -> usize; #[cxx_name="cnt"] fn cnt_@k(p: &SharedPtr<@r>) -> usize;
#[cxx_name="hold"] fn hold_@k(p: &SharedPtr<@r>); #[cxx_name="held_@k"] fn held_@k(i: usize) -> SharedPtr<@r>; #[cxx_name="unhold_@k"] fn unhold_@k(i: usize) -> SharedPtr<@r>; #[cxx_name="clear_@k"] fn clear_@k();
#[cxx_name="echo"] fn echo_@k(p: SharedPtr<@r>) -> SharedPtr<@r>; #[cxx_name="sink"] fn sink_@k(p: SharedPtr<@r>); #[cxx_name="reset"] fn reset_@k(p: Pin<&mut SharedPtr<@r>>);
#[cxx_name="wk"] fn wk_@k(p: &SharedPtr<@r>) -> WeakPtr<@r>; #[cxx_name="wcnt"] fn wcnt_@k(p: &WeakPtr<@r>) -> usize; #[cxx_name="wadr"] fn wadr_@k(p: &WeakPtr<@r>) -> usize; #[cxx_name="wecho"] fn wecho_@k(p: WeakPtr<@r>) -> WeakPtr<@r>; #[cxx_name="same"] fn same_@k(a: &SharedPtr<@r>, b: &SharedPtr<@r>) -> bool;
""".replace("Pin<&mut SharedPtr<@r>>", "&mut SharedPtr<@r>").replace("@k", k).replace("@r", r)
        decl += """std::shared_ptr<@c> mk_@k(std::uint8_t k); inline std::shared_ptr<@c> held_@k(std::size_t i) { return held<@c>()[i]; } inline std::shared_ptr<@c> unhold_@k(std::size_t i) { auto &h = held<@c>(); auto p = std::move(h[i]); h.erase(h.begin() + (std::ptrdiff_t)i); return p; } inline void clear_@k() { held<@c>().clear(); }
""".replace("@k", k).replace("@c", c)
        files["main.cc"] = files["main.cc"].replace("@MK@", "std::shared_ptr<@c> mk_@k(std::uint8_t k) { return mk<@c>(k); }\n@MK@".replace("@k", k).replace("@c", c))
        ops += """impl Ops for @r { const N: &'static str = "@k"; fn mk(k: u8) -> SharedPtr<Self> { mk_@k(k) } fn adr(p: &SharedPtr<Self>) -> usize { adr_@k(p) } fn cnt(p: &SharedPtr<Self>) -> usize { cnt_@k(p) } fn hold(p: &SharedPtr<Self>) { hold_@k(p) }
 fn held(i: usize) -> SharedPtr<Self> { held_@k(i) } fn unhold(i: usize) -> SharedPtr<Self> { unhold_@k(i) } fn clear() { clear_@k() } fn echo(p: SharedPtr<Self>) -> SharedPtr<Self> { echo_@k(p) } fn sink(p: SharedPtr<Self>) { sink_@k(p) } fn reset(p: &mut SharedPtr<Self>) { reset_@k(p) }
 fn wk(p: &SharedPtr<Self>) -> WeakPtr<Self> { wk_@k(p) } fn wcnt(p: &WeakPtr<Self>) -> usize { wcnt_@k(p) } fn wadr(p: &WeakPtr<Self>) -> usize { wadr_@k(p) } fn wecho(p: WeakPtr<Self>) -> WeakPtr<Self> { wecho_@k(p) } fn same(a: &SharedPtr<Self>, b: &SharedPtr<Self>) -> bool { same_@k(a, b) }
 fn s(&self) -> String { El::es(self) } fn rust() -> Option<(SharedPtr<Self>, String)> { @rust } }
#[no_mangle] extern "C" fn t_@k() { run::<@r>() }
""".replace("@k", k).replace("@rust", {"SP": "let s = SP { a: rnd() as u32, s: rand_text() }; let t = s.es(); Some((SharedPtr::new(s), t))", "Tri": "let s = Tri { a: rnd() as u16, b: 3 }; let t = s.es(); Some((SharedPtr::new(s), t))", "Opq": "None", "Renamed": "None", "CxxString": "None"}.get(r, "let s = <@r>::make(); let t = s.es(); Some((SharedPtr::new(s), t))")).replace("@r", r)
        if k not in ("o", "sp", "t", "r", "s"): ops += "impl El for %s { fn es(&self) -> String { let mut d = D::new(); Dump::dump(self, &mut d); String::from_utf8(d).unwrap() } }\n" % r
        tests.append('{"%s", t_%s}' % (k, k))
    files["ffi0.rs"] = files["ffi0.rs"].replace("@FNS@", b)
    files["unit.rs"] = files["unit.rs"].replace("@OPS@", ops)
    files["unit.h"] = files["unit.h"].replace("@DECL@", decl)
    files["main.cc"] = files["main.cc"].replace("@MK@", "").replace("@TD@", " ".join("void t_%s();" % k for k, _, _ in T)).replace("@TESTS@", ", ".join(tests))
