#[cxx::bridge(namespace = "cust")]
pub mod ffi1 {
    unsafe extern "C++" {
        include!("cust.h");
        fn cboom(kind: u32, msg: &[u8]) -> Result<u64>;
        fn cboom_s(kind: u32, msg: &[u8]) -> Result<String>;
        fn cboom_u(kind: u32, msg: &[u8]) -> Result<()>;
        fn expected() -> &'static CxxString;
        fn handled() -> u32;
    }
}
