#[cxx::bridge]
pub mod ffi0 {
    struct P { a: u8, s: String, d: f64 }
    unsafe extern "C++" { include!("unit.h"); type Tri = crate::Tri; }
    impl Vec<P> {}
    impl Vec<Tri> {}
    extern "Rust" {
        type R; type Pod; type Z;
        fn id(self: &R) -> u64; fn set(self: &mut R, v: u64);
        fn val(self: &Pod) -> u32; fn set_val(self: &mut Pod, v: u16);
        unsafe fn rs_r<'a>(n: usize, lo: usize, hi: usize) -> &'a [R]; unsafe fn rs_r_mut<'a>(n: usize, lo: usize, hi: usize) -> &'a mut [R];
        unsafe fn rs_p<'a>(n: usize, lo: usize, hi: usize) -> &'a [Pod]; unsafe fn rs_p_mut<'a>(n: usize, lo: usize, hi: usize) -> &'a mut [Pod];
        unsafe fn rs_z<'a>(n: usize) -> &'a [Z]; fn z_addr(z: &Z) -> usize; fn len_z(v: &[Z]) -> usize;
        unsafe fn e_u8<'a>(s: &'a [u8]) -> &'a [u8]; unsafe fn em_u8<'a>(s: &'a mut [u8]) -> &'a mut [u8];
        unsafe fn e_u32<'a>(s: &'a [u32]) -> &'a [u32]; unsafe fn em_u32<'a>(s: &'a mut [u32]) -> &'a mut [u32];
        unsafe fn e_f64<'a>(s: &'a [f64]) -> &'a [f64]; unsafe fn em_f64<'a>(s: &'a mut [f64]) -> &'a mut [f64];
        unsafe fn e_str<'a>(s: &'a [String]) -> &'a [String]; unsafe fn em_str<'a>(s: &'a mut [String]) -> &'a mut [String];
        unsafe fn e_p<'a>(s: &'a [P]) -> &'a [P]; unsafe fn em_p<'a>(s: &'a mut [P]) -> &'a mut [P];
        unsafe fn e_tri<'a>(s: &'a [Tri]) -> &'a [Tri]; unsafe fn em_tri<'a>(s: &'a mut [Tri]) -> &'a mut [Tri];
        unsafe fn e_r<'a>(s: &'a [R]) -> &'a [R]; unsafe fn em_r<'a>(s: &'a mut [R]) -> &'a mut [R];
        unsafe fn e_pod<'a>(s: &'a [Pod]) -> &'a [Pod]; unsafe fn em_pod<'a>(s: &'a mut [Pod]) -> &'a mut [Pod];
        // a sub-slice chosen by Rust
        unsafe fn sub_u32<'a>(s: &'a [u32], lo: usize, hi: usize) -> &'a [u32];
        unsafe fn sub_r<'a>(s: &'a [R], lo: usize, hi: usize) -> &'a [R];
        fn write_u32(s: &mut [u32], i: usize, v: u32);
        fn sum_u8(s: &[u8]) -> u64;
    }
}
