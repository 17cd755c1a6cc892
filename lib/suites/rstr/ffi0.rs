#[cxx::bridge]
pub mod ffi0 {
    extern "Rust" {
        fn rs_take_string(s: String) -> usize;
        fn rs_same(s: &str, bytes: &[u8]) -> bool;
        fn rs_echo(s: String) -> String;
        fn rs_concat(a: &str, b: &String) -> String;
        fn rs_push(s: &mut String, t: &str);
    }
}
