use ffi0::*;
#[repr(C)] pub struct Reloc { id: u64, heap: *mut u32 }
unsafe impl cxx::ExternType for Reloc { type Id = cxx::type_id!("Reloc"); type Kind = cxx::kind::Trivial; }
extern "C" { fn reloc_drop(r: *mut Reloc); }
impl Drop for Reloc { fn drop(&mut self) { unsafe { reloc_drop(self) } } }
pub struct R { reg: u64, v: u64, b: Box<u64> }
fn mk_r(v: u64) -> Box<R> { Box::new(R { reg: unsafe { reg_new(b"R".as_ptr(), 1) }, v, b: Box::new(v) }) }
impl R { fn rv(&self) -> u64 { assert_eq!(*self.b, self.v); self.v } fn rs(&mut self, v: u64) { self.v = v; *self.b = v } fn radr(&self) -> usize { self as *const R as usize } }
impl Drop for R { fn drop(&mut self) { unsafe { reg_del(self.reg) } } }
fn take_r(b: Box<R>) -> u64 { b.rv() } fn echo_r(b: Box<R>) -> Box<R> { b } fn badr_r(b: &Box<R>) -> usize { b.radr() } fn replace_r(b: &mut Box<R>, v: u64) { *b = mk_r(v) }
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static ZL: AtomicUsize = AtomicUsize::new(0); pub struct Z; impl Drop for Z { fn drop(&mut self) { ZL.fetch_sub(1, SeqCst); } }
fn mk_z() -> Box<Z> { ZL.fetch_add(1, SeqCst); Box::new(Z) } fn zlive() -> usize { ZL.load(SeqCst) } fn take_z(_: Box<Z>) {}
#[repr(align(128))] pub struct Al { v: u8 } fn mk_al(v: u8) -> Box<Al> { Box::new(Al { v }) } impl Al { fn alv(&self) -> u8 { self.v } fn aladr(&self) -> usize { self as *const Al as usize } } fn take_al(b: Box<Al>) -> u8 { b.v }
fn mk_sp(a: u32, s: &str) -> Box<SP> { Box::new(SP { a, s: s.to_owned() }) } fn take_sp(b: Box<SP>) -> SP { *b } fn echo_sp(b: Box<SP>) -> Box<SP> { b } fn badr_sp(b: &Box<SP>) -> usize { &**b as *const SP as usize } fn sp_str(s: &SP) -> String { format!("{}/{}", s.a, s.s) } fn replace_sp(b: &mut Box<SP>, a: u32, s: &str) { if coin(2) { **b = SP { a, s: s.to_owned() } } else { *b = mk_sp(a, s) } }
fn mk_pod(a: u8, b: u64) -> Box<Pod> { Box::new(Pod { a, b }) } fn echo_pod(b: Box<Pod>) -> Box<Pod> { b } fn badr_pod(b: &Box<Pod>) -> usize { &**b as *const Pod as usize } fn take_pod(b: Box<Pod>) -> Pod { *b }
fn echo_rl(b: Box<Reloc>) -> Box<Reloc> { b } fn badr_rl(b: &Box<Reloc>) -> usize { &**b as *const Reloc as usize } fn take_rl(b: Box<Reloc>) { if coin(2) { let _v = *b; } else { drop(b) } }
fn boxes(n: usize) -> Vec<Holder> { (0..n).map(|i| Holder { r: mk_r(rnd() >> 20), s: mk_sp(i as u32, "held text of some length") }).collect() } fn hold_sum(v: Vec<Holder>) -> u64 { v.iter().map(|h| h.r.rv() + h.s.a as u64).sum() }
// distinct functions of one signature
fn gen<const K: u32>(x: u32) -> u32 { x.wrapping_mul(K * 2 + 1).rotate_left(K) ^ K.wrapping_mul(0x9e3779b9) }
const FS: [fn(u32) -> u32; 12] = [gen::<0>, gen::<1>, gen::<2>, gen::<3>, gen::<4>, |x| x, |x| x.wrapping_add(1), |x| !x, |_| 0, u32::swap_bytes, u32::reverse_bits, u32::count_ones];
thread_local! { static KEPT: RefCell<std::collections::BTreeMap<usize, usize>> = RefCell::new(Default::default()); static CALLS: std::cell::Cell<u32> = std::cell::Cell::new(0); }
#[no_mangle] extern "C" fn t_fn() { KEPT.with(|k| { let mut k = k.borrow_mut();   // kept from one round to the next
    for _ in 0..12 { let i = below(6) as usize;
        match below(3) { 0 => { let n = below(12) as usize; keep_u(i, FS[n]); k.insert(i, n); }
            1 => if !k.is_empty() { let j = *k.keys().nth(below(k.len() as u64) as usize).unwrap(); copy_u(i, j); let n = k[&j]; k.insert(i, n); },
            _ => for (i, n) in k.iter() { let x = rnd() as u32; let how = below(8) as u32; st_eq(&format!("fn.how{}", how), &FS[*n](x), &use_u(*i, x, how)) } } } }) }
fn fa(a: &str, b: String) -> String { format!("{}<{}", a, b) } fn fb(a: &str, b: String) -> String { b + a }
fn many(a: u8, b: i16, c: u32, d: i64, e: f32, f: f64, g: bool, h: usize, i: &str, j: String) -> f64 { (a as f64) + (b as f64) * 3.0 + (c as f64) * 5.0 + (d as f64) * 7.0 + (e as f64) * 11.0 + f * 13.0 + (g as u8 as f64) * 17.0 + (h as f64) * 19.0 + (i.len() as f64) * 23.0 + (j.len() as f64) * 29.0 }
#[no_mangle] extern "C" fn t_fn2() {
    fn tick() { CALLS.with(|c| c.set(c.get() + 1)) } let n = below(6) as u32; CALLS.with(|c| c.set(0)); keep_unit(tick); use_unit(n); CALLS.with(|c| st_eq("fn.unit", &n, &c.get()));
    let f: fn(&str, String) -> String = if coin(2) { fa } else { fb }; keep_str(f); let (a, b) = (rand_text(), rand_text()); for _ in 0..3 { st_eq("fn.str", &f(&a, b.clone()), &use_str(&a, &b)) }
    keep_many(many); let (b, c, d, e, f, h) = (rnd() as i16, rnd() as u32, (rnd() >> 30) as i64, below(1000) as f32, below(100000) as f64, below(99999) as usize); let g = coin(2); let (i, j) = (rand_text(), rand_text()); let k = rnd() as u8; st_eq("fn.many", &many(k, b, c, d, e, f, g, h, &i, j.clone()), &use_many(k, b, c, d, e, f, g, h, &i, j));
    let r = mk_r(rnd()); let (v, p) = (r.rv(), r.radr()); let r = call_box(|mut r| { let v = r.rv(); r.rs(v ^ 1); r }, r); st_eq("fn.box", &(v ^ 1, p), &(r.rv(), r.radr()));
    let (x, y) = (SP { a: rnd() as u32, s: rand_text() }, SP { a: 5, s: rand_text() }); let w = format!("{}{}/{}", x.s, y.s, x.a ^ y.a); let z = call_sp(|x, y| SP { a: x.a ^ y.a, s: x.s + &y.s }, x, &y); st_eq("fn.sp", &w, &format!("{}/{}", z.s, z.a));
    let v: Vec<u16> = (0..rand_len()).map(|_| rnd() as u16).collect(); let mut w = vec![1, 2]; let o = call_vec(|v, w| { w.extend(&v); v.into_iter().rev().collect() }, v.clone(), &mut w); st_eq("fn.vec", &v.iter().rev().copied().collect::<Vec<_>>(), &o); st_eq("fn.vec.mut", &[&[1, 2], &v[..]].concat(), &w);
    let q = mk_opq(rnd()); let v = q.oval(); let q = call_up(|mut q| { let v = q.oval(); q.pin_mut().oset(v.wrapping_add(1)); q }, q); st_eq("fn.up", &v.wrapping_add(2), &q.oval());
    let (f, g) = (FS[below(12) as usize], FS[below(12) as usize]); let x = rnd() as u32; st_eq("fn.two", &(g(f(x)) ^ f(g(x))), &call_two(f, g, x));
    let a: Vec<u32> = (0..rand_len()).map(|_| rnd() as u32).collect(); let mut b = vec![0u8; rand_len()]; let (la, lb) = (a.len(), b.len()); let n = call_slice(|a, b| { for x in b.iter_mut() { *x = a.len() as u8 } a.len() * 1000 + b.len() }, &a, &mut b); st_eq("fn.slice", &(la * 1000 + lb, vec![la as u8; lb]), &(n, b));
    let mut o = mk_opq(3); let v = rnd(); let r = call_pin(|o, v| { o.oset(v); 77 }, o.pin_mut(), v); st_eq("fn.pin", &(77, v), &(r, o.oval()));
}
