use ffi0::{Tree, SP, SU, En};
#[repr(C)] pub struct Reloc { id: u64, heap: *mut u32 }
unsafe impl cxx::ExternType for Reloc { type Id = cxx::type_id!("Reloc"); type Kind = cxx::kind::Trivial; }
extern "C" { fn reloc_drop(r: *mut Reloc); fn reloc_new(r: *mut Reloc, v: u32); fn mkstr(out: *mut c_void, p: *const u8, n: usize); }
impl Drop for Reloc { fn drop(&mut self) { unsafe { reloc_drop(self) } } }
pub struct R { reg: u64, tag: u8, b: Box<u64> }
impl R { fn new() -> R { let reg = unsafe { reg_new(b"R".as_ptr(), 1) }; R { reg, tag: reg as u8, b: Box::new(reg ^ 0x5555) } }
    fn id(&self) -> u64 { assert!(self.tag == self.reg as u8 && *self.b == self.reg ^ 0x5555); self.reg } }
impl Drop for R { fn drop(&mut self) { unsafe { reg_del(self.reg) } } }
pub struct Pod(u8, u16, [u8; 3]);   // 6 bytes, alignment 2, no drop glue
impl Pod { fn val(&self) -> u32 { self.0 as u32 | (self.1 as u32) << 8 | (self.2[2] as u32) << 24 } }
fn mk_r(n: usize, extra: usize) -> Vec<R> { let mut v = Vec::with_capacity(n + extra); for _ in 0..n { v.push(R::new()) } v }
fn pod() -> Pod { let x = rnd(); Pod(x as u8, (x >> 8) as u16, [1, 2, (x >> 24) as u8]) }
fn mk_pod(n: usize, extra: usize) -> Vec<Pod> { let mut v = Vec::with_capacity(n + extra); for _ in 0..n { v.push(pod()) } v }
fn echo_r(v: Vec<R>) -> Vec<R> { v }
fn push_r(v: &mut Vec<R>) { v.push(R::new()) }
fn echo_pod(v: Vec<Pod>) -> Vec<Pod> { v }
fn push_pod(v: &mut Vec<Pod>) { v.push(pod()) }
trait El { fn put(&self, d: &mut D); fn rnd() -> Self; }
macro_rules! prim { ($($t:ty)*) => { $( impl El for $t { fn put(&self, d: &mut D) { d.extend_from_slice(format!("{}", self).as_bytes()) } fn rnd() -> Self { rnd() as $t } } )* } }
prim!(u8 u16 i64 usize);
impl El for bool { fn put(&self, d: &mut D) { d.extend_from_slice(if *self { b"true" } else { b"false" }) } fn rnd() -> bool { coin(2) } }
impl El for f64 { fn put(&self, d: &mut D) { d.extend_from_slice(format!("{}", self.to_bits()).as_bytes()) } fn rnd() -> f64 { f64::from_bits(rnd()) } }
impl El for String { fn put(&self, d: &mut D) { d.extend_from_slice(format!("{}:", self.len()).as_bytes()); d.extend_from_slice(self.as_bytes()) } fn rnd() -> String { rand_text() } }
impl El for SP { fn put(&self, d: &mut D) { self.a.put(d); self.s.put(d); pv(&self.v, d); (self.b as i64).put(d) }
    fn rnd() -> SP { SP { a: rnd() as u32, s: rand_text(), v: (0..below(4)).map(|_| rnd() as u8).collect(), b: rnd() as i8 } } }
impl El for u32 { fn put(&self, d: &mut D) { d.extend_from_slice(format!("{}", self).as_bytes()) } fn rnd() -> u32 { rnd() as u32 } }
impl El for SU { fn put(&self, d: &mut D) { match self.u.as_ref() { None => d.push(b'0'), Some(s) => { s.len().put(d); d.push(b':'); d.extend_from_slice(s.as_bytes()) } } self.n.put(d) }
    fn rnd() -> SU { let t = rand_text(); let mut u = MaybeUninit::<UniquePtr<CxxString>>::uninit(); SU { u: unsafe { mkstr(u.as_mut_ptr() as _, t.as_ptr(), t.len()); u.assume_init() }, n: rnd() as u8 } } }
impl El for En { fn put(&self, d: &mut D) { self.repr.put(d) } fn rnd() -> En { [En::A, En::B, En::C][below(3) as usize] } }
impl El for Reloc { fn put(&self, d: &mut D) { if self.heap.is_null() { d.push(b'-') } else { unsafe { (*self.heap).put(d) } } } fn rnd() -> Reloc { let mut r = MaybeUninit::uninit(); unsafe { reloc_new(r.as_mut_ptr(), rnd() as u32); r.assume_init() } } }
impl El for R { fn put(&self, d: &mut D) { d.extend_from_slice(format!("{}", self.id()).as_bytes()) } fn rnd() -> R { R::new() } }
impl El for Pod { fn put(&self, d: &mut D) { self.val().put(d) } fn rnd() -> Pod { pod() } }
fn pv<T: El>(v: &[T], d: &mut D) { d.extend_from_slice(format!("[{}", v.len()).as_bytes()); for x in v { d.push(b'|'); x.put(d) } d.push(b']') }
unsafe fn out<T: El>(v: *const Vec<T>, o: *mut c_void) { let mut d = D::new(); assert!((*v).capacity() >= (*v).len()); pv(&*v, &mut d); d_put(o, d.as_ptr(), d.len()) }
macro_rules! fns { ($($t:ty, $echo:ident, $grow:ident, $dump:ident;)*) => { $(
    fn $echo(v: Vec<$t>) -> Vec<$t> { v }
    fn $grow(v: &mut Vec<$t>, n: usize) { for _ in 0..n { v.push(<$t>::rnd()) } }
    #[no_mangle] unsafe extern "C" fn $dump(v: *const Vec<$t>, o: *mut c_void) { out(v, o) }
)* } }
fns! { u8, echo_u8, grow_u8, dv_u8; i64, echo_i64, grow_i64, dv_i64; u16, echo_u16, grow_u16, dv_u16; bool, echo_bool, grow_bool, dv_bool; f64, echo_f64, grow_f64, dv_f64;
  usize, echo_us, grow_us, dv_us; String, echo_str, grow_str, dv_str; SP, echo_sp, grow_sp, dv_sp; SU, echo_su, grow_su, dv_su; En, echo_en, grow_en, dv_en; Reloc, echo_rl, grow_rl, dv_rl;
  R, xecho_r, xgrow_r, dv_r; Pod, xecho_p, xgrow_p, dv_pod; }
pub struct Z;
fn rs_zv(n: usize) -> Vec<Z> { (0..n).map(|_| Z).collect() }
fn z_addr(z: &Z) -> usize { z as *const Z as usize }

fn mk_tree(n: u32) -> Tree { Tree { n, name: format!("node number {} with its own text", n), kids: (0..n).map(mk_tree).collect() } }
fn tree_str(t: &Tree) -> String { format!("{}{}({})", t.n, t.name.len(), t.kids.iter().map(tree_str).collect::<String>()) }
