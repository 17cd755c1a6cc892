#[cxx::bridge]
pub mod ffi0 {
    struct Pair { a: u32, s: String }
    unsafe extern "C++" {
        include!("unit.h");
        type Opq;
        fn boom(kind: u32, msg: &[u8]) -> Result<u64>;
        fn boom_unit(kind: u32, msg: &[u8]) -> Result<()>;
        fn boom_str(kind: u32, msg: &[u8]) -> Result<String>;
        fn boom_pair(kind: u32, msg: &[u8]) -> Result<Pair>;
        fn boom_up(kind: u32, msg: &[u8]) -> Result<UniquePtr<Opq>>;
        unsafe fn boom_ref<'a>(o: &'a Opq, kind: u32, msg: &[u8]) -> Result<&'a Opq>;
        fn boom_m(self: &Opq, kind: u32, msg: &[u8]) -> Result<u8>;
        fn boom_pin(self: Pin<&mut Opq>, kind: u32, msg: &[u8]) -> Result<Pin<&mut Opq>>;
        fn boom_arg(o: UniquePtr<Opq>, s: String, v: Vec<String>, p: Pair, kind: u32, msg: &[u8]) -> Result<usize>;
        fn boom_cb(f: fn(u32) -> u32, kind: u32, msg: &[u8]) -> Result<u32>;
        #[cxx_name = "boom_tu"] fn btu_0(kind: u32) -> Result<()>;
        #[cxx_name = "boom_mu"] fn bmu_0(self: &Opq, kind: u32) -> Result<()>;
        #[cxx_name = "boom_tn"] fn btn_0(kind: u32) -> Result<u64>;
        #[cxx_name = "boom_mn"] fn bmn_0(self: &Opq, kind: u32) -> Result<u64>;
        #[cxx_name = "boom_ts"] fn bts_0(kind: u32) -> Result<String>;
        #[cxx_name = "boom_ms"] fn bms_0(self: &Opq, kind: u32) -> Result<String>;
        #[cxx_name = "boom_tu"] fn btu_1(kind: u32, a0: u32) -> Result<()>;
        #[cxx_name = "boom_mu"] fn bmu_1(self: &Opq, kind: u32, a0: u32) -> Result<()>;
        #[cxx_name = "boom_tn"] fn btn_1(kind: u32, a0: u32) -> Result<u64>;
        #[cxx_name = "boom_mn"] fn bmn_1(self: &Opq, kind: u32, a0: u32) -> Result<u64>;
        #[cxx_name = "boom_ts"] fn bts_1(kind: u32, a0: u32) -> Result<String>;
        #[cxx_name = "boom_ms"] fn bms_1(self: &Opq, kind: u32, a0: u32) -> Result<String>;
        #[cxx_name = "boom_tu"] fn btu_2(kind: u32, a0: u32, a1: u64) -> Result<()>;
        #[cxx_name = "boom_mu"] fn bmu_2(self: &Opq, kind: u32, a0: u32, a1: u64) -> Result<()>;
        #[cxx_name = "boom_tn"] fn btn_2(kind: u32, a0: u32, a1: u64) -> Result<u64>;
        #[cxx_name = "boom_mn"] fn bmn_2(self: &Opq, kind: u32, a0: u32, a1: u64) -> Result<u64>;
        #[cxx_name = "boom_ts"] fn bts_2(kind: u32, a0: u32, a1: u64) -> Result<String>;
        #[cxx_name = "boom_ms"] fn bms_2(self: &Opq, kind: u32, a0: u32, a1: u64) -> Result<String>;
        #[cxx_name = "boom_tu"] fn btu_3(kind: u32, a0: u32, a1: u64, a2: u8) -> Result<()>;
        #[cxx_name = "boom_mu"] fn bmu_3(self: &Opq, kind: u32, a0: u32, a1: u64, a2: u8) -> Result<()>;
        #[cxx_name = "boom_tn"] fn btn_3(kind: u32, a0: u32, a1: u64, a2: u8) -> Result<u64>;
        #[cxx_name = "boom_mn"] fn bmn_3(self: &Opq, kind: u32, a0: u32, a1: u64, a2: u8) -> Result<u64>;
        #[cxx_name = "boom_ts"] fn bts_3(kind: u32, a0: u32, a1: u64, a2: u8) -> Result<String>;
        #[cxx_name = "boom_ms"] fn bms_3(self: &Opq, kind: u32, a0: u32, a1: u64, a2: u8) -> Result<String>;
        #[cxx_name = "boom_tu"] fn btu_4(kind: u32, a0: u32, a1: u64, a2: u8, a3: i16) -> Result<()>;
        #[cxx_name = "boom_mu"] fn bmu_4(self: &Opq, kind: u32, a0: u32, a1: u64, a2: u8, a3: i16) -> Result<()>;
        #[cxx_name = "boom_tn"] fn btn_4(kind: u32, a0: u32, a1: u64, a2: u8, a3: i16) -> Result<u64>;
        #[cxx_name = "boom_mn"] fn bmn_4(self: &Opq, kind: u32, a0: u32, a1: u64, a2: u8, a3: i16) -> Result<u64>;
        #[cxx_name = "boom_ts"] fn bts_4(kind: u32, a0: u32, a1: u64, a2: u8, a3: i16) -> Result<String>;
        #[cxx_name = "boom_ms"] fn bms_4(self: &Opq, kind: u32, a0: u32, a1: u64, a2: u8, a3: i16) -> Result<String>;
        #[cxx_name = "boom_tu"] fn btu_5(kind: u32, a0: u32, a1: u64, a2: u8, a3: i16, a4: &str) -> Result<()>;
        #[cxx_name = "boom_mu"] fn bmu_5(self: &Opq, kind: u32, a0: u32, a1: u64, a2: u8, a3: i16, a4: &str) -> Result<()>;
        #[cxx_name = "boom_tn"] fn btn_5(kind: u32, a0: u32, a1: u64, a2: u8, a3: i16, a4: &str) -> Result<u64>;
        #[cxx_name = "boom_mn"] fn bmn_5(self: &Opq, kind: u32, a0: u32, a1: u64, a2: u8, a3: i16, a4: &str) -> Result<u64>;
        #[cxx_name = "boom_ts"] fn bts_5(kind: u32, a0: u32, a1: u64, a2: u8, a3: i16, a4: &str) -> Result<String>;
        #[cxx_name = "boom_ms"] fn bms_5(self: &Opq, kind: u32, a0: u32, a1: u64, a2: u8, a3: i16, a4: &str) -> Result<String>;
        #[cxx_name = "boom_tu"] fn btu_6(kind: u32, a0: u32, a1: u64, a2: u8, a3: i16, a4: &str, a5: bool) -> Result<()>;
        #[cxx_name = "boom_mu"] fn bmu_6(self: &Opq, kind: u32, a0: u32, a1: u64, a2: u8, a3: i16, a4: &str, a5: bool) -> Result<()>;
        #[cxx_name = "boom_tn"] fn btn_6(kind: u32, a0: u32, a1: u64, a2: u8, a3: i16, a4: &str, a5: bool) -> Result<u64>;
        #[cxx_name = "boom_mn"] fn bmn_6(self: &Opq, kind: u32, a0: u32, a1: u64, a2: u8, a3: i16, a4: &str, a5: bool) -> Result<u64>;
        #[cxx_name = "boom_ts"] fn bts_6(kind: u32, a0: u32, a1: u64, a2: u8, a3: i16, a4: &str, a5: bool) -> Result<String>;
        #[cxx_name = "boom_ms"] fn bms_6(self: &Opq, kind: u32, a0: u32, a1: u64, a2: u8, a3: i16, a4: &str, a5: bool) -> Result<String>;
        #[cxx_name = "boom_tu"] fn btu_7(kind: u32, a0: u32, a1: u64, a2: u8, a3: i16, a4: &str, a5: bool, a6: f64) -> Result<()>;
        #[cxx_name = "boom_mu"] fn bmu_7(self: &Opq, kind: u32, a0: u32, a1: u64, a2: u8, a3: i16, a4: &str, a5: bool, a6: f64) -> Result<()>;
        #[cxx_name = "boom_tn"] fn btn_7(kind: u32, a0: u32, a1: u64, a2: u8, a3: i16, a4: &str, a5: bool, a6: f64) -> Result<u64>;
        #[cxx_name = "boom_mn"] fn bmn_7(self: &Opq, kind: u32, a0: u32, a1: u64, a2: u8, a3: i16, a4: &str, a5: bool, a6: f64) -> Result<u64>;
        #[cxx_name = "boom_ts"] fn bts_7(kind: u32, a0: u32, a1: u64, a2: u8, a3: i16, a4: &str, a5: bool, a6: f64) -> Result<String>;
        #[cxx_name = "boom_ms"] fn bms_7(self: &Opq, kind: u32, a0: u32, a1: u64, a2: u8, a3: i16, a4: &str, a5: bool, a6: f64) -> Result<String>;
        #[cxx_name = "boom_tu"] fn btu_8(kind: u32, a0: u32, a1: u64, a2: u8, a3: i16, a4: &str, a5: bool, a6: f64, a7: &[u8]) -> Result<()>;
        #[cxx_name = "boom_mu"] fn bmu_8(self: &Opq, kind: u32, a0: u32, a1: u64, a2: u8, a3: i16, a4: &str, a5: bool, a6: f64, a7: &[u8]) -> Result<()>;
        #[cxx_name = "boom_tn"] fn btn_8(kind: u32, a0: u32, a1: u64, a2: u8, a3: i16, a4: &str, a5: bool, a6: f64, a7: &[u8]) -> Result<u64>;
        #[cxx_name = "boom_mn"] fn bmn_8(self: &Opq, kind: u32, a0: u32, a1: u64, a2: u8, a3: i16, a4: &str, a5: bool, a6: f64, a7: &[u8]) -> Result<u64>;
        #[cxx_name = "boom_ts"] fn bts_8(kind: u32, a0: u32, a1: u64, a2: u8, a3: i16, a4: &str, a5: bool, a6: f64, a7: &[u8]) -> Result<String>;
        #[cxx_name = "boom_ms"] fn bms_8(self: &Opq, kind: u32, a0: u32, a1: u64, a2: u8, a3: i16, a4: &str, a5: bool, a6: f64, a7: &[u8]) -> Result<String>;
        #[cxx_name = "boom_tu"] fn btu_9(kind: u32, a0: u32, a1: u64, a2: u8, a3: i16, a4: &str, a5: bool, a6: f64, a7: &[u8], a8: u16) -> Result<()>;
        #[cxx_name = "boom_mu"] fn bmu_9(self: &Opq, kind: u32, a0: u32, a1: u64, a2: u8, a3: i16, a4: &str, a5: bool, a6: f64, a7: &[u8], a8: u16) -> Result<()>;
        #[cxx_name = "boom_tn"] fn btn_9(kind: u32, a0: u32, a1: u64, a2: u8, a3: i16, a4: &str, a5: bool, a6: f64, a7: &[u8], a8: u16) -> Result<u64>;
        #[cxx_name = "boom_mn"] fn bmn_9(self: &Opq, kind: u32, a0: u32, a1: u64, a2: u8, a3: i16, a4: &str, a5: bool, a6: f64, a7: &[u8], a8: u16) -> Result<u64>;
        #[cxx_name = "boom_ts"] fn bts_9(kind: u32, a0: u32, a1: u64, a2: u8, a3: i16, a4: &str, a5: bool, a6: f64, a7: &[u8], a8: u16) -> Result<String>;
        #[cxx_name = "boom_ms"] fn bms_9(self: &Opq, kind: u32, a0: u32, a1: u64, a2: u8, a3: i16, a4: &str, a5: bool, a6: f64, a7: &[u8], a8: u16) -> Result<String>;
        fn mk_opq() -> UniquePtr<Opq>;
        fn oid(self: &Opq) -> u64;
        fn ping(depth: u32, msg: &[u8]) -> Result<u64>;
        fn last_expected() -> &'static CxxString;
    }
    extern "Rust" {
        type R;
        fn pong(depth: u32, msg: &[u8]) -> Result<u64>;
        fn e_string(fail: bool, s: &str) -> Result<u32>;
        fn e_boxed(fail: bool, s: &str) -> Result<String>;
        fn e_pieces(fail: bool, s: &str) -> Result<Pair>;
        fn e_io(fail: bool, s: &str) -> Result<()>;
        fn e_exc(fail: bool, s: &str) -> Result<Box<R>>;
        fn e_static(fail: bool, s: &str) -> Result<f64>;
        fn e_fmt(fail: bool, s: &str) -> Result<Vec<u16>>;
        unsafe fn e_ref<'a>(fail: bool, s: &'a str) -> Result<&'a str>;
        fn e_self(self: &R, fail: bool, s: &str) -> Result<u8>;
        fn e_mut(self: &mut R, fail: bool, s: &str) -> Result<u64>;
        fn e_arg(r: Box<R>, v: Vec<String>, fail: bool, s: &str) -> Result<usize>;
        fn eau_0(fail: bool) -> Result<()>;
        fn ean_0(fail: bool) -> Result<u64>;
        fn eas_0(fail: bool) -> Result<String>;
        fn eau_1(fail: bool, a0: u32) -> Result<()>;
        fn ean_1(fail: bool, a0: u32) -> Result<u64>;
        fn eas_1(fail: bool, a0: u32) -> Result<String>;
        fn eau_2(fail: bool, a0: u32, a1: u64) -> Result<()>;
        fn ean_2(fail: bool, a0: u32, a1: u64) -> Result<u64>;
        fn eas_2(fail: bool, a0: u32, a1: u64) -> Result<String>;
        fn eau_3(fail: bool, a0: u32, a1: u64, a2: u8) -> Result<()>;
        fn ean_3(fail: bool, a0: u32, a1: u64, a2: u8) -> Result<u64>;
        fn eas_3(fail: bool, a0: u32, a1: u64, a2: u8) -> Result<String>;
        fn eau_4(fail: bool, a0: u32, a1: u64, a2: u8, a3: i16) -> Result<()>;
        fn ean_4(fail: bool, a0: u32, a1: u64, a2: u8, a3: i16) -> Result<u64>;
        fn eas_4(fail: bool, a0: u32, a1: u64, a2: u8, a3: i16) -> Result<String>;
        fn eau_5(fail: bool, a0: u32, a1: u64, a2: u8, a3: i16, a4: &str) -> Result<()>;
        fn ean_5(fail: bool, a0: u32, a1: u64, a2: u8, a3: i16, a4: &str) -> Result<u64>;
        fn eas_5(fail: bool, a0: u32, a1: u64, a2: u8, a3: i16, a4: &str) -> Result<String>;
        fn eau_6(fail: bool, a0: u32, a1: u64, a2: u8, a3: i16, a4: &str, a5: bool) -> Result<()>;
        fn ean_6(fail: bool, a0: u32, a1: u64, a2: u8, a3: i16, a4: &str, a5: bool) -> Result<u64>;
        fn eas_6(fail: bool, a0: u32, a1: u64, a2: u8, a3: i16, a4: &str, a5: bool) -> Result<String>;
        fn eau_7(fail: bool, a0: u32, a1: u64, a2: u8, a3: i16, a4: &str, a5: bool, a6: f64) -> Result<()>;
        fn ean_7(fail: bool, a0: u32, a1: u64, a2: u8, a3: i16, a4: &str, a5: bool, a6: f64) -> Result<u64>;
        fn eas_7(fail: bool, a0: u32, a1: u64, a2: u8, a3: i16, a4: &str, a5: bool, a6: f64) -> Result<String>;
        fn e_alt(fail: bool, s: &str) -> Result<u8>;
        fn mk_r() -> Box<R>;
        fn rid(self: &R) -> u64;
    }
}
