#[cxx::bridge]
pub mod ffi0 {
    #[derive(Clone)]
    struct SP { a: u32, s: String }
    #[derive(Clone)]
    struct Pod { a: u8, b: u64 }
    enum En { A = 4, B }
    unsafe extern "C++" {
        include!("unit.h");
        type Reloc = crate::Reloc;
        type Opq;
        fn mk_opq(v: u64) -> UniquePtr<Opq>; fn oval(self: &Opq) -> u64;
        fn keep_u(i: usize, f: fn(u32) -> u32); fn use_u(i: usize, x: u32, how: u32) -> u32; fn copy_u(i: usize, j: usize);
        fn keep_unit(f: fn()); fn use_unit(n: u32);
        fn keep_str(f: fn(&str, String) -> String); fn use_str(a: &str, b: &str) -> String;
        fn keep_many(f: fn(u8, i16, u32, i64, f32, f64, bool, usize, &str, String) -> f64); fn use_many(a: u8, b: i16, c: u32, d: i64, e: f32, f: f64, g: bool, h: usize, i: &str, j: String) -> f64;
        fn call_box(f: fn(Box<R>) -> Box<R>, b: Box<R>) -> Box<R>; fn call_sp(f: fn(SP, &SP) -> SP, a: SP, b: &SP) -> SP; fn call_vec(f: fn(Vec<u16>, &mut Vec<u16>) -> Vec<u16>, v: Vec<u16>, w: &mut Vec<u16>) -> Vec<u16>; fn call_up(f: fn(UniquePtr<Opq>) -> UniquePtr<Opq>, p: UniquePtr<Opq>) -> UniquePtr<Opq>;
        fn call_two(f: fn(u32) -> u32, g: fn(u32) -> u32, x: u32) -> u32; fn call_slice(f: fn(&[u32], &mut [u8]) -> usize, a: &[u32], b: &mut [u8]) -> usize; fn call_pin(f: fn(Pin<&mut Opq>, u64) -> u64, o: Pin<&mut Opq>, v: u64) -> u64;
        fn oset(self: Pin<&mut Opq>, v: u64);
    }
    impl Box<Reloc> {}
    extern "Rust" {
        type R; type Z; type Al;
        fn mk_r(v: u64) -> Box<R>; fn rv(self: &R) -> u64; fn rs(self: &mut R, v: u64); fn radr(self: &R) -> usize; fn take_r(b: Box<R>) -> u64; fn echo_r(b: Box<R>) -> Box<R>; fn badr_r(b: &Box<R>) -> usize; fn replace_r(b: &mut Box<R>, v: u64);
        fn mk_z() -> Box<Z>; fn zlive() -> usize; fn take_z(b: Box<Z>);
        fn mk_al(v: u8) -> Box<Al>; fn alv(self: &Al) -> u8; fn aladr(self: &Al) -> usize; fn take_al(b: Box<Al>) -> u8;
        fn mk_sp(a: u32, s: &str) -> Box<SP>; fn take_sp(b: Box<SP>) -> SP; fn echo_sp(b: Box<SP>) -> Box<SP>; fn badr_sp(b: &Box<SP>) -> usize; fn sp_str(s: &SP) -> String; fn replace_sp(b: &mut Box<SP>, a: u32, s: &str);
        fn mk_pod(a: u8, b: u64) -> Box<Pod>; fn echo_pod(b: Box<Pod>) -> Box<Pod>; fn badr_pod(b: &Box<Pod>) -> usize; fn take_pod(b: Box<Pod>) -> Pod;
        fn echo_rl(b: Box<Reloc>) -> Box<Reloc>; fn badr_rl(b: &Box<Reloc>) -> usize; fn take_rl(b: Box<Reloc>);
        fn boxes(n: usize) -> Vec<Holder>;
        fn hold_sum(v: Vec<Holder>) -> u64;
    }
    struct Holder { r: Box<R>, s: Box<SP> }
}
