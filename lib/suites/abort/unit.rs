use ffi0::*;
use std::fmt; use std::hash::{Hash, Hasher}; use std::cmp::Ordering; use std::sync::atomic::{AtomicU32, Ordering as O};
static MODE: AtomicU32 = AtomicU32::new(0); static ARMED: AtomicU32 = AtomicU32::new(0);
#[no_mangle] extern "C" fn set_mode(m: u32) { MODE.store(m, O::SeqCst) }
#[no_mangle] extern "C" fn will_arm() -> bool { MODE.load(O::SeqCst) != 0 }
// exceptions are armed from the start, panics when the probe has set the scene
#[no_mangle] extern "C" fn is_armed() -> bool { MODE.load(O::SeqCst) != 0 }
fn armed() -> bool { ARMED.load(O::SeqCst) != 0 }
fn arm(_: u32) { ARMED.store(MODE.load(O::SeqCst), O::SeqCst) }
fn trip() {
    struct Nasty; impl Drop for Nasty { fn drop(&mut self) { panic!("payload dropped") } }
    match ARMED.load(O::SeqCst) { 0 => (), 1 => panic!("marker 4711"), 2 => panic!("marker {}", 4711 + below(1)), 3 => std::panic::panic_any(4711u32), 4 => std::panic::resume_unwind(Box::new("quiet")), 5 => std::panic::panic_any(Nasty), 6 => { let v: Vec<u8> = vec![]; let i = 4711 + below(1) as usize; let _ = v[i]; }, _ => { let _: u8 = Option::<u8>::None.expect("marker 4711"); } }
}
fn tripping() -> u32 { trip(); 1 }
pub struct R { x: u32 }
impl R { fn new() -> R { R { x: 1 } } }
impl Drop for R { fn drop(&mut self) { if !std::thread::panicking() { trip() } } }
impl PartialEq for R { fn eq(&self, _: &R) -> bool { trip(); true } } impl Eq for R {}
impl PartialOrd for R { fn partial_cmp(&self, o: &R) -> Option<Ordering> { trip(); Some(Ordering::Equal) } } impl Ord for R { fn cmp(&self, o: &R) -> Ordering { trip(); Ordering::Equal } }
impl Hash for R { fn hash<H: Hasher>(&self, h: &mut H) { trip(); h.write_u8(1) } }
struct BadDisplay; impl fmt::Display for BadDisplay { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("partial ")?; trip(); Ok(()) } }
fn mk_r() -> Box<R> { Box::new(R::new()) } fn mk_rs(n: usize) -> Vec<R> { (0..n).map(|_| R::new()).collect() } fn mk_st() -> St { St { a: 1, s: "s".into(), b: mk_r() } } fn mk_sts(n: usize) -> Vec<St> { (0..n).map(|_| mk_st()).collect() }
fn life<'a>(a: &'a str, _r: &'a R) -> &'a str { trip(); a }
@RD@
static PROBES: &[(&str, fn())] = &[
@RP@,
("p.take.struct", || take_st(mk_st())), ("p.take.up", || take_up(UniquePtr::new(mk_st()))), ("p.take.sp", || hold_sp(SharedPtr::new(mk_st()))), ("p.take.deep", || call_deep(Deep { v: mk_sts(2), r: mk_rs(2), s: "x".repeat(30) })),
("p.cb.catching", || { arm(1); catch_and_call(|x| { trip(); x }); }), ("p.cb.thread", || { arm(1); call_thread(|x| { trip(); x }); }), ("p.cb.unwinding", || { arm(1); mid_unwind(|x| { trip(); x }); }), ("p.cb.str", || { arm(1); call_str(|s| { trip(); s.to_owned() }, "abc"); }),
("p.cb.box", || call_box(|b| { drop(b) })), ("p.cb.vec", || { arm(1); call_vec(|v| { v.push(1); trip() }) }), ("p.cb.ref", || { let r = R::new(); arm(1); call_ref(|r| { trip(); r }, &r); std::mem::forget(r); }),
("x.drop.up", || { drop(mk_thrower()) }), ("x.drop.sp", || { drop(sh_thrower()) }), ("x.drop.sp_clone", || { let a = sh_thrower(); let b = a.clone(); drop(a); drop(b) }), ("x.drop.vec", || { drop(vec_thrower()) }),
("x.drop.wp", || { let a = sh_thrower(); let w = a.downgrade(); drop(a); drop(w) }), ("x.made", || { let _ = make_then_throw(2); }), ("x.static", || { static_throw(1) }), ("x.noexcept", || { let _ = throw_in_noexcept(1); }),
];
#[no_mangle] extern "C" fn r_list() { for (n, _) in PROBES { println!("{}", n) } }
#[no_mangle] extern "C-unwind" fn r_probe(name: *const c_char) {
    let name = unsafe { std::ffi::CStr::from_ptr(name) }.to_str().unwrap();
    struct Frame; impl Drop for Frame { fn drop(&mut self) { if std::thread::panicking() || !DONE.with(|d| d.get()) { println!("UNWOUND") } } }
    thread_local! { static DONE: std::cell::Cell<bool> = std::cell::Cell::new(false); }
    let f = PROBES.iter().find(|p| p.0 == name).expect("no such probe").1;
    let _f = Frame;
    if std::panic::catch_unwind(|| { let _f = Frame; f(); DONE.with(|d| d.set(true)) }).is_err() { println!("CAUGHT") }
}
