use ffi0::P;
#[repr(C)] pub struct Tri { a: u16, b: [u8; 3] }
unsafe impl cxx::ExternType for Tri { type Id = cxx::type_id!("Tri"); type Kind = cxx::kind::Trivial; }
pub struct R { reg: u64, v: Box<u64>, t: u16 }
impl R { fn new(v: u64) -> R { R { reg: unsafe { reg_new(b"R".as_ptr(), 1) }, v: Box::new(v), t: 7 } } fn id(&self) -> u64 { assert!(self.t == 7); *self.v } fn set(&mut self, v: u64) { assert!(self.t == 7); *self.v = v } }
impl Drop for R { fn drop(&mut self) { unsafe { reg_del(self.reg) } } }
pub struct Pod(u16, [u8; 5]); impl Pod { fn val(&self) -> u32 { self.0 as u32 } fn set_val(&mut self, v: u16) { self.0 = v } }
pub struct Z;
fn rs_r<'a>(n: usize, lo: usize, hi: usize) -> &'a [R] { &rs_r_mut(n, lo, hi)[..] }
fn rs_r_mut<'a>(n: usize, lo: usize, hi: usize) -> &'a mut [R] { let v = keep_vec((0..n).map(|i| R::new(i as u64 * 3 + 1)).collect()); &mut v[lo..hi] }
fn rs_p<'a>(n: usize, lo: usize, hi: usize) -> &'a [Pod] { &rs_p_mut(n, lo, hi)[..] }
fn rs_p_mut<'a>(n: usize, lo: usize, hi: usize) -> &'a mut [Pod] { let v = keep_vec((0..n).map(|i| Pod(i as u16 * 3 + 1, [9; 5])).collect()); &mut v[lo..hi] }
fn rs_z<'a>(n: usize) -> &'a [Z] { unsafe { std::slice::from_raw_parts(std::ptr::NonNull::<Z>::dangling().as_ptr(), n) } }
fn z_addr(z: &Z) -> usize { z as *const Z as usize }
fn len_z(v: &[Z]) -> usize { v.len() }
fn note<T>(s: &[T]) { let p = s.as_ptr() as usize; st_ok("rust.nonnull_aligned", p != 0 && p % std::mem::align_of::<T>() == 0); }
macro_rules! echo { ($($t:ty, $e:ident, $m:ident;)*) => { $( fn $e<'a>(s: &'a [$t]) -> &'a [$t] { note(s); s } fn $m<'a>(s: &'a mut [$t]) -> &'a mut [$t] { note(s); s } )* } }
echo! { u8, e_u8, em_u8; u32, e_u32, em_u32; f64, e_f64, em_f64; String, e_str, em_str; P, e_p, em_p; Tri, e_tri, em_tri; R, e_r, em_r; Pod, e_pod, em_pod; }
fn sub_u32<'a>(s: &'a [u32], lo: usize, hi: usize) -> &'a [u32] { &s[lo..hi] }
fn sub_r<'a>(s: &'a [R], lo: usize, hi: usize) -> &'a [R] { &s[lo..hi] }
fn write_u32(s: &mut [u32], i: usize, v: u32) { s[i] = v }
fn sum_u8(s: &[u8]) -> u64 { s.iter().map(|x| *x as u64).sum() }
