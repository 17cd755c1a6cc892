#[cxx::bridge]
pub mod ffi0 {
    unsafe extern "C++" {
        include!("unit.h");
        fn cs_make(b: &[u8]) -> UniquePtr<CxxString>;
        fn cs_same(s: &CxxString, b: &[u8]) -> bool;
        fn cs_append(s: Pin<&mut CxxString>, b: &[u8]);
        fn cs_assign(s: Pin<&mut CxxString>, b: &[u8]);
        fn cs_capacity(s: &CxxString) -> usize;
        fn cs_data(s: &CxxString) -> *const u8;
        fn cs_size(s: &CxxString) -> usize;
        fn cs_cmp(a: &CxxString, b: &CxxString) -> i32;
        fn dirty();
    }
}
