#[cxx::bridge]
pub mod ffi0 {
    #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
    struct SP { a: u32, s: String }
    unsafe extern "C++" {
        include!("unit.h");
        type Tri = crate::Tri;
        type Opq; type Base;
        #[namespace = "deep::er"] #[cxx_name = "CppName"] type Renamed;
        fn id(self: &Opq) -> u64; fn rid(self: &Renamed) -> u64; fn bval(self: &Base) -> u64; fn self_weak(self: &Base) -> WeakPtr<Base>;
        fn mk_base(v: u64) -> SharedPtr<Base>; fn base_cnt(p: &SharedPtr<Base>) -> usize;
        fn make_sp(a: u32, s: &str) -> SharedPtr<SP>; fn make_tri(a: u16) -> SharedPtr<Tri>; fn make_str(s: &[u8]) -> SharedPtr<CxxString>;
        @FNS@
    }
    impl SharedPtr<Tri> {}
    impl WeakPtr<Tri> {}
}
