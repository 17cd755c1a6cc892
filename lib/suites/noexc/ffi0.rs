#[cxx::bridge]
pub mod ffi0 {
    struct St { a: u32, s: String }
    extern "Rust" {
        type R;
        fn nx_vec(n: usize) -> Vec<u16>;
        fn nx_strings(n: usize) -> Vec<String>;
        fn nx_box() -> Box<R>;
        fn nx_panic(a: Box<R>, s: &str, v: Vec<String>) -> String;
        fn nx_sum(v: &[u32]) -> u32;
        fn get(self: &R) -> u32;
    }
    unsafe extern "C++" {
        include!("unit.h");
        fn nx_call(f: fn(u32) -> u32, x: u32) -> u32;
        fn nx_str(s: &CxxString) -> UniquePtr<CxxString>;
        fn nx_st(s: St) -> St;
    }
}
