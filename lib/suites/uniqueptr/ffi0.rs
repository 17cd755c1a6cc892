#[cxx::bridge]
pub mod ffi0 {
    #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
    struct SP { a: u32, s: String }
    unsafe extern "C++" {
        include!("unit.h");
        type Tri = crate::Tri;
        type Opq; type Derived;
        #[namespace = "deep::er"] #[cxx_name = "CppName"] type Renamed;
        type File; type Dev; fn mk_dev() -> UniquePtr<Dev>;
        fn id(self: &Opq) -> u64; fn set(self: Pin<&mut Opq>, v: u64); fn mk_opq(null: bool, v: u64) -> UniquePtr<Opq>;
        fn rid(self: &Renamed) -> u64; fn mk_ren(v: u64) -> UniquePtr<Renamed>;
        fn mk_derived(v: u64) -> UniquePtr<Derived>; fn dval(self: &Derived) -> u64;
        fn mk_sp(null: bool, a: u32, s: &str) -> UniquePtr<SP>; fn mk_tri(null: bool, a: u16) -> UniquePtr<Tri>; fn mk_str(null: bool, s: &[u8]) -> UniquePtr<CxxString>; fn mk_vec(null: bool, n: usize) -> UniquePtr<CxxVector<u16>>;
        fn mk_vs(n: usize) -> UniquePtr<CxxVector<CxxString>>; fn mk_vsp(n: usize) -> UniquePtr<CxxVector<SP>>;
        fn mk_file(b: &[u8]) -> UniquePtr<File>;
        #[cxx_name = "adr"] fn adr_o(p: &UniquePtr<Opq>) -> usize; #[cxx_name = "adr"] fn adr_sp(p: &UniquePtr<SP>) -> usize; #[cxx_name = "adr"] fn adr_t(p: &UniquePtr<Tri>) -> usize; #[cxx_name = "adr"] fn adr_s(p: &UniquePtr<CxxString>) -> usize; #[cxx_name = "adr"] fn adr_v(p: &UniquePtr<CxxVector<u16>>) -> usize;
        #[cxx_name = "echo"] fn echo_o(p: UniquePtr<Opq>) -> UniquePtr<Opq>; #[cxx_name = "echo"] fn echo_sp(p: UniquePtr<SP>) -> UniquePtr<SP>; #[cxx_name = "echo"] fn echo_t(p: UniquePtr<Tri>) -> UniquePtr<Tri>; #[cxx_name = "echo"] fn echo_s(p: UniquePtr<CxxString>) -> UniquePtr<CxxString>; #[cxx_name = "echo"] fn echo_v(p: UniquePtr<CxxVector<u16>>) -> UniquePtr<CxxVector<u16>>;
        #[cxx_name = "sink"] fn sink_o(p: UniquePtr<Opq>); #[cxx_name = "sink"] fn sink_sp(p: UniquePtr<SP>); #[cxx_name = "sink"] fn sink_t(p: UniquePtr<Tri>); #[cxx_name = "sink"] fn sink_s(p: UniquePtr<CxxString>); #[cxx_name = "sink"] fn sink_v(p: UniquePtr<CxxVector<u16>>);
        #[cxx_name = "reset"] fn reset_o(p: &mut UniquePtr<Opq>); #[cxx_name = "reset"] fn reset_sp(p: &mut UniquePtr<SP>); #[cxx_name = "reset"] fn reset_t(p: &mut UniquePtr<Tri>); #[cxx_name = "reset"] fn reset_s(p: &mut UniquePtr<CxxString>); #[cxx_name = "reset"] fn reset_v(p: &mut UniquePtr<CxxVector<u16>>);
    }
    impl UniquePtr<Tri> {}
}
