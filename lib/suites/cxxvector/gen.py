PR = ["u8","u16","u32","u64","usize","i8","i16","i32","i64","isize","f32","f64"]
EX = [("sp","SP"),("en","En"),("tri","Tri"),("rel","Rel")]
TR = [(p,p) for p in PR] + EX            # by-value elements
OP = [("str","CxxString"),("op","Opq")]  # opaque elements
def ffi():
    o = ["#[cxx::bridge]","pub mod ffi0 {","    #[derive(Debug, Clone, PartialEq)]","    struct SP { a: u32, s: String, d: u8 }","    #[derive(Debug)]","    enum En { A = 1, B = 77, C }",
         "    struct Own { v: UniquePtr<CxxVector<Opq>>, n: u8 }",
         "    unsafe extern \"C++\" {","        include!(\"unit.h\");","        type Tri = crate::Tri;","        type Rel = crate::Rel;","        type Opq;","        fn oid(self: &Opq) -> u64;","        fn oset(self: Pin<&mut Opq>, v: u64);", "        fn own_mk(n: usize) -> Own;", "        fn own_take(o: Own) -> usize;"]
    for n,t in TR+OP:
        o += [f"        #[cxx_name = \"vd\"] fn vd_{n}(v: &CxxVector<{t}>) -> String;", f"        #[cxx_name = \"va\"] fn va_{n}(v: &CxxVector<{t}>) -> usize;",
              f"        #[cxx_name = \"vgrow\"] fn vgrow_{n}(v: Pin<&mut CxxVector<{t}>>, n: usize);", f"        #[cxx_name = \"vcut\"] fn vcut_{n}(v: Pin<&mut CxxVector<{t}>>, n: usize);",
              f"        #[cxx_name = \"vecho\"] fn vecho_{n}(v: UniquePtr<CxxVector<{t}>>) -> UniquePtr<CxxVector<{t}>>;", f"        fn vmk_{n}(n: usize, extra: usize) -> UniquePtr<CxxVector<{t}>>;",
              f"        #[cxx_name = \"vself\"] fn vself_{n}(v: &CxxVector<{t}>) -> &CxxVector<{t}>;", f"        #[cxx_name = \"vselfm\"] fn vselfm_{n}(v: Pin<&mut CxxVector<{t}>>) -> Pin<&mut CxxVector<{t}>>;"]
    return "\n".join(o + ["    }", "    impl CxxVector<SP> {}", "    impl CxxVector<Tri> {}", "    impl CxxVector<Rel> {}", "}"])
def rs():
    o = []
    for n,t in TR: o.append(f"vt!(tr {n}, {t}, vd_{n}, va_{n}, vgrow_{n}, vcut_{n}, vecho_{n}, vmk_{n}, vself_{n}, vselfm_{n}, t_{n});")
    for n,t in OP: o.append(f"vt!(op {n}, {t}, vd_{n}, va_{n}, vgrow_{n}, vcut_{n}, vecho_{n}, vmk_{n}, vself_{n}, vselfm_{n}, t_{n});")
    return "\n".join(o)
CT = {"usize":"std::size_t","isize":"rust::isize","f32":"float","f64":"double","sp":"SP","en":"En","tri":"Tri","rel":"Rel","str":"std::string","op":"Opq"}
def ct(n):
    if n in CT: return CT[n]
    return "std::" + ("uint" if n[0]=="u" else "int") + n[1:] + "_t"
def decls(): return "\n".join(f"std::unique_ptr<std::vector<{ct(n)}>> vmk_{n}(std::size_t n, std::size_t e);" for n,t in TR+OP)
def defs(): return "\n".join(f"std::unique_ptr<std::vector<{ct(n)}>> vmk_{n}(std::size_t n, std::size_t e) {{ return vmk<{ct(n)}>(n, e); }}" for n,t in TR+OP)
def tests(): return ", ".join(f'{{"{n}", t_{n}}}' for n,t in TR+OP)
def edecl(): return " ".join(f"void t_{n}();" for n,t in TR+OP)

def expand(files):
    files["ffi0.rs"] = ffi()
    files["unit.rs"] = files["unit.rs"].replace("@TESTS@", rs())
    files["unit.h"] = files["unit.h"].replace("@DECLS@", decls())
    files["main.cc"] = files["main.cc"].replace("@DEFS@", defs()).replace("@EDECL@", edecl()).replace("@TESTS@", tests())
