use ffi0::*;
use std::sync::atomic::{AtomicUsize, AtomicU64, Ordering::Relaxed};

// Threads, barrier and lock are C++ ones: the standard library here is not built with ThreadSanitizer, so it cannot see std's own synchronization.
extern "C" { fn cc_parallel(n: usize, f: extern "C" fn(*mut c_void, usize), ctx: *mut c_void); fn cc_barrier_new(n: usize) -> *mut c_void; fn cc_barrier_wait(b: *mut c_void); fn cc_barrier_del(b: *mut c_void); fn cc_lock(); fn cc_unlock(); }
struct Barrier(*mut c_void); unsafe impl Sync for Barrier {} unsafe impl Send for Barrier {}
impl Barrier { fn new(n: usize) -> Self { Barrier(unsafe { cc_barrier_new(n) }) } fn wait(&self) { unsafe { cc_barrier_wait(self.0) } } }
impl Drop for Barrier { fn drop(&mut self) { unsafe { cc_barrier_del(self.0) } } }
/// run f(0) .. f(n-1) on n threads
fn par<R: Send, F: Fn(usize) -> R + Sync>(n: usize, f: F) -> Vec<R> {
    struct Ctx<'a, R, F>(&'a F, Vec<std::cell::UnsafeCell<Option<R>>>);
    extern "C" fn tr<R, F: Fn(usize) -> R>(c: *mut c_void, i: usize) { let c = unsafe { &*(c as *const Ctx<R, F>) }; let r = (c.0)(i); unsafe { *c.1[i].get() = Some(r) } }
    let mut c = Ctx(&f, (0..n).map(|_| std::cell::UnsafeCell::new(None)).collect()); unsafe { cc_parallel(n, tr::<R, F>, &mut c as *mut Ctx<R, F> as *mut c_void) } c.1.into_iter().map(|x| x.into_inner().unwrap()).collect()
}
unsafe impl Send for Obj {}
unsafe impl Sync for Obj {}
static RLIVE: AtomicUsize = AtomicUsize::new(0);
pub struct RObj { v: u64, b: Box<u64> }
impl RObj { fn rget(&self) -> u64 { assert_eq!(self.v, *self.b); self.v } fn rset(&mut self, v: u64) { self.v = v; *self.b = v } }
impl Drop for RObj { fn drop(&mut self) { RLIVE.fetch_sub(1, Relaxed); } }
fn mk_robj(v: u64) -> Box<RObj> { RLIVE.fetch_add(1, Relaxed); Box::new(RObj { v, b: Box::new(v) }) }
fn rlive() -> usize { RLIVE.load(Relaxed) }
fn fail_rs(m: &str) -> Result<u64, String> { Err(format!("failed {}", m)) }
fn relay_rs(m: &str, d: u32) -> Result<String, Box<dyn std::error::Error>> { if d == 0 { return Err(m.into()) } Ok(relay(m, d - 1)?) }
fn twice(s: &str) -> String { format!("{0}{0}", s) } fn upto(n: u32) -> Vec<u32> { (0..n).collect() } fn sp_cmp(a: &SP, b: &SP) -> bool { a < b }
fn hold(p: SharedPtr<Obj>) -> u64 { let w = p.downgrade(); let q = w.upgrade(); drop(p); let r = q.id(); drop(q); let _ = w.upgrade().as_ref().map(|o| o.id()); r }
#[derive(Clone)] struct Rn(u64);
impl Rn { fn n(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9); z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb); z ^ (z >> 31) }
    fn b(&mut self, n: u64) -> u64 { self.n() % n } fn text(&mut self) -> String { (0..self.b(40)).map(|_| (b'a' + self.b(26) as u8) as char).collect() } }
fn pause(r: &mut Rn) { match r.b(12) { 0 => std::thread::yield_now(), 1 => for _ in 0..r.b(200) { std::hint::spin_loop() }, _ => {} } }
// The order in which threads took steps, as evidence of distinct interleavings; relaxed, so that it orders nothing.
static TICKET: AtomicU64 = AtomicU64::new(0);
thread_local! { static STEPS: RefCell<Vec<u64>> = RefCell::new(Vec::new()); }
fn step() { let t = TICKET.fetch_add(1, Relaxed); STEPS.with(|s| { let mut s = s.borrow_mut(); if s.len() < 64 { s.push(t) } }) }
fn steps() -> Vec<u64> { STEPS.with(|s| std::mem::take(&mut *s.borrow_mut())) }
fn order(all: Vec<Vec<u64>>) { let mut v: Vec<(u64, usize)> = all.iter().enumerate().flat_map(|(i, s)| s.iter().map(move |t| (*t, i))).collect(); v.sort(); v.truncate(48); let s: String = v.iter().map(|(_, i)| (b'A' + *i as u8) as char).collect(); st_eq("order", &s, &s) }
trait Sh: SharedPtrTarget + WeakPtrTarget + Sync + Send { fn tag(&self) -> u64; }
impl Sh for Obj { fn tag(&self) -> u64 { self.id() } } impl Sh for u64 { fn tag(&self) -> u64 { *self } }
impl Sh for SP { fn tag(&self) -> u64 { if self.s == self.a.to_string() && self.v.len() == 5 { self.a } else { !0 } } }
impl Sh for CxxString { fn tag(&self) -> u64 { self.to_str().unwrap().rsplit(' ').next().unwrap().parse().unwrap() } }
/// random owner operations on one thread: what it holds at the end, and how many operations gave a wrong object
fn churn<T: Sh>(r: &mut Rn, n: u32, root: &SharedPtr<T>, wroot: &WeakPtr<T>, tag: u64) -> (Vec<SharedPtr<T>>, Vec<WeakPtr<T>>, usize) {
    let (mut s, mut w, mut bad) = (Vec::<SharedPtr<T>>::new(), Vec::<WeakPtr<T>>::new(), 0);
    let mut see = |p: &SharedPtr<T>| if p.as_ref().map(|x| x.tag()) != Some(tag) { bad += 1 };
    for _ in 0..n { step(); pause(r);
        match r.b(11) {
            0 | 1 => s.push(root.clone()), 2 => s.push(wroot.upgrade()), 3 => w.push(root.downgrade()), 4 => w.push(wroot.clone()),
            5 => if !s.is_empty() { let i = r.b(s.len() as u64) as usize; see(&s.swap_remove(i)) },
            6 => if !w.is_empty() { let i = r.b(w.len() as u64) as usize; let x = w.swap_remove(i); let u = x.upgrade(); see(&u); if r.b(2) == 0 { s.push(u) } },
            7 => if !s.is_empty() { let i = r.b(s.len() as u64) as usize; let c = s[i].clone(); w.push(c.downgrade()); see(&c) },
            8 => if s.len() > 1 { let i = r.b(s.len() as u64 - 1) as usize; s[i] = s[i + 1].clone() },
            9 => { let t: Vec<_> = (0..r.b(6)).map(|_| wroot.upgrade()).collect(); for p in &t { see(p) } }
            _ => if let Some(p) = s.pop() { let q = p.clone(); drop(p); see(&q); drop(q.downgrade()) },
        } }
    for p in &s { see(p) } for x in &w { see(&x.upgrade()) } (s, w, bad)
}
fn shared_one<T: Sh>(name: &str, root: SharedPtr<T>, tag: u64, cnt: fn(&SharedPtr<T>) -> usize) {
    let t = 2 + below(7) as usize; let n = 10 + below(60) as u32; let seed = rnd(); let wroot = root.downgrade();
    let (b1, b2) = (Barrier::new(t + 1), Barrier::new(t + 1)); let held = AtomicUsize::new(0); let bad = AtomicUsize::new(0); let count = AtomicUsize::new(0);
    let ord = par(t + 1, |i| { if i == t { b1.wait(); b1.wait(); count.store(cnt(&root), Relaxed); b2.wait(); return vec![] } let mut r = Rn(seed.wrapping_add(i as u64 * 77)); b1.wait(); let (s, w, k) = churn(&mut r, n, &root, &wroot, tag); held.fetch_add(s.len(), Relaxed); bad.fetch_add(k, Relaxed); b1.wait(); b2.wait(); drop(w); drop(s); steps() });
    st_eq(&format!("{}.count", name), &(1 + held.load(Relaxed)), &count.load(Relaxed));
    order(ord); st_eq(&format!("{}.objects", name), &0, &bad.load(Relaxed)); st_eq(&format!("{}.count_after", name), &1, &cnt(&root)); drop(root); st_eq(&format!("{}.expired", name), &true, &wroot.upgrade().is_null());
}
#[no_mangle] extern "C" fn t_shared() {
    let x = rnd() >> 8; match below(6) { 0 => shared_one("sp", mk_sp(x), x, cnt_sp), 1 => shared_one("u64", mk_u64(x), x, cnt_u64), 2 => shared_one("str", mk_str(x), x, cnt_str), _ => shared_one("obj", mk_obj(x), x, cnt_obj) }
    st_eq("obj.live", &0, &live());
}
// the last owner goes away while others upgrade
#[no_mangle] extern "C" fn t_race() { for _ in 0..6 {
    let t = 2 + below(6) as usize; let x = rnd() >> 8; let root = mk_obj(x); let gone = destroyed(); let seed = rnd(); let b = Barrier::new(t + 1); let (wins, bad) = (AtomicUsize::new(0), AtomicUsize::new(0)); let w0 = root.downgrade(); let spin = below(3000); struct C<T>(std::cell::UnsafeCell<T>); unsafe impl<T> Sync for C<T> {} impl<T: Default> C<T> { unsafe fn take(&self) -> T { std::mem::take(&mut *self.0.get()) } }
    let extra: Vec<_> = (0..t).map(|_| C(Some(if coin(3) { root.clone() } else { SharedPtr::null() }).into())).collect(); let root = C(Some(root).into());
    let ord = par(t + 1, |i| { if i == t { let root = unsafe { root.take() }; b.wait(); for _ in 0..spin { std::hint::spin_loop() } drop(root); return vec![] }
            let w = w0.clone(); let mut r = Rn(seed + i as u64); let mut mine = unsafe { extra[i].take() }; b.wait();
            for k in 0..100000u32 { step(); if k > 5 { mine = None } let p = if r.b(2) == 0 { w.upgrade() } else { weak_obj(&w) }; match p.as_ref() { None => { if k > 5 { break } } Some(o) => { if o.id() != x { bad.fetch_add(1, Relaxed); } wins.fetch_add(1, Relaxed); if r.b(4) == 0 { drop(via_obj(p.clone(), r.n() as u32)) } } } pause(&mut r); if r.b(5) == 0 { let w2 = if p.is_null() { w.clone() } else { to_weak(&p) }; drop(p); if let Some(o) = w2.upgrade().as_ref() { if o.id() != x { bad.fetch_add(1, Relaxed); } } } }
            drop(mine); steps() });
    order(ord); st_eq("race.objects", &0, &bad.load(Relaxed)); st_eq("race.destroyed_once", &(gone + 1), &destroyed()); st_eq("race.expired", &true, &w0.upgrade().is_null()); st_eq("race.live", &0, &live()); let s = wins.load(Relaxed) > 0; st_eq("race.upgraded_some", &s, &s);
} }
/// operations on data of one thread: the first wrong result, if any
fn own(r: &mut Rn, n: u32) -> String {
    macro_rules! req { ($a:expr, $b:expr) => {{ let (a, b) = ($a, $b); if a != b { return format!("{}: {:?} != {:?}", stringify!($a), a, b) } }} }
    for _ in 0..n { step(); pause(r); let (a, b) = (r.text(), r.text());
        match r.b(10) {
            0 => { let c = cstr(b.as_bytes()); req!(concat(&a, b.clone(), &c), format!("{}{}{}", a, b, b)); req!(c.to_string_lossy().into_owned(), b.clone()) }
            1 => { let k = r.n() as u32; match boom(k, &a) { Ok(v) => req!((k % 5, v), (4, a.len() as u64)), Err(e) => { std::thread::yield_now(); let want = if k % 5 == 3 { format!("failed {}", a) } else { a.clone() }; let e2 = boom(0, &b).unwrap_err(); req!(e.what(), &want[..]); req!(e2.what(), &b[..]); req!(format!("{}", e), want) } } }
            2 => { let m = format!("{}-{}", r.n(), a); let d = r.b(7) as u32; let e = relay(&m, d).unwrap_err(); let e3 = relay(&b, 2).unwrap_err(); req!(e.what(), &m[..]); req!(e3.what(), &b[..]) }
            3 => { let v: Vec<u32> = (0..r.b(20)).map(|x| x as u32).collect(); let mut w: Vec<u32> = v.clone(); w.push(9); for x in &mut w { *x += 1 } w.push(9); req!(vec_ops(v.clone(), 9), w); req!(sum_slice(&v), v.iter().map(|x| *x as u64).sum::<u64>()) }
            4 => { let v: Vec<String> = (0..r.b(9)).map(|_| r.text()).collect(); let mut w = v.clone(); w.push(a.clone()); let h = w.len() / 2; let t = w[..h].to_vec(); w.extend(t); req!(strs_ops(v, &a), w) }
            5 => { let s = SP { a: r.n() >> 9, s: a.clone(), v: vec![1, 2] }; let t = sp_ops(s.clone()); req!(t, SP { a: s.a + 1, s: s.s.clone() + "!", v: vec![1, 2, s.a as u32] }) }
            6 => { let x = r.n() >> 4; let mut o = mk_uobj(x); req!(o.id(), x); o.pin_mut().set(x + 1); let raw = o.into_raw(); let o = unsafe { UniquePtr::from_raw(raw) }; req!(o.id(), x + 1) }
            7 => { let x = r.n(); let n = r.b(20) as usize; let mut v = cvec(x, n); v.pin_mut().push(5); req!(v.iter().copied().collect::<Vec<_>>(), (0..n).map(|i| x.wrapping_mul(i as u64 + 1) as u32).chain([5]).collect::<Vec<_>>()); let s = cvs(3, &a); req!(s.iter().map(|x| x.to_string()).collect::<Vec<_>>(), (0..3).map(|i| format!("{}{}", a, i)).collect::<Vec<_>>()) }
            8 => { fn f(x: u64) -> u64 { x.rotate_left(7) } fn g(x: u64) -> u64 { !x } let h: fn(u64) -> u64 = if r.b(2) == 0 { f } else { g }; let x = r.n() >> 1; req!(call_fn(h, x), h(x) ^ h(x + 1)) }
            _ => { cxx::let_cxx_string!(c = &a); c.as_mut().push_str(&b); req!(c.to_str().unwrap(), format!("{}{}", a, b)); let p = SharedPtr::new(SP { a: 4, s: b.clone(), v: vec![] }); let q = p.clone(); drop(p); req!(&q.s, &b); let u = UniquePtr::new(SP { a: 1, s: a.clone(), v: vec![3] }); req!(u.s.clone(), a.clone()) }
        } }
    String::new()
}
#[no_mangle] extern "C" fn t_own() {
    let t = 2 + below(7) as usize; let seed = rnd(); let n = 20 + below(60) as u32; let b = Barrier::new(t); let res = par(t, |i| { let mut r = Rn(seed ^ (i as u64 * 0x1234567)); b.wait(); let a = own(&mut r, n); let c = own_ops(r.n(), n); (a, c, steps()) });
    for (a, c, _) in &res { st_eq("own.rust", "", &a[..]); st_eq("own.cxx", "", &c[..]) } order(res.into_iter().map(|x| x.2).collect()); st_eq("own.live", &(0, 0), &(live(), rlive()));
}
// objects made by one thread and used and destroyed by another
#[no_mangle] extern "C" fn t_pass() {
    let t = 1 + below(4) as usize; let seed = rnd(); let n = 20 + below(40) as u32; let left = AtomicUsize::new(t); let sum = AtomicU64::new(0); let want = AtomicU64::new(0); let bad = AtomicUsize::new(0); let popped = AtomicUsize::new(0);
    type It = (UniquePtr<CxxString>, SharedPtr<SP>, Box<RObj>, cxx::Exception, UniquePtr<Obj>, u64); struct C(std::cell::UnsafeCell<Vec<It>>); unsafe impl Sync for C {} impl C { fn with<R>(&self, f: impl FnOnce(&mut Vec<It>) -> R) -> R { unsafe { cc_lock(); let r = f(&mut *self.0.get()); cc_unlock(); r } } }
    let chan = C(Default::default()); let cons = 1 + below(3) as usize; struct AssertSend<T>(T); unsafe impl<T> Send for AssertSend<T> {}
    par(t + cons, |i| { let mut r = Rn(seed + i as u64);
        if i < t { for _ in 0..n { pause(&mut r); let x = r.b(1 << 40); want.fetch_add(x + 1, Relaxed); push_q(mk_uobj(x), mk_robj(x + 1), format!("s{}", x), vec![SP { a: x, s: x.to_string(), v: vec![1] }; 2]);
            let y = r.b(1 << 40); let it = (cstr(y.to_string().as_bytes()), mk_sp(y), mk_robj(y), boom(y as u32 % 3, &y.to_string()).err(), mk_uobj(y), y); let it = (it.0, it.1, it.2, match it.3 { Some(e) => e, None => { bad.fetch_add(1, Relaxed); continue } }, it.4, y); chan.with(|c| c.push(it)); } left.fetch_sub(1, Relaxed); return }
        loop { pause(&mut r); let done = left.load(Relaxed) == 0; let (mut o, mut s, mut v) = (UniquePtr::null(), String::from("old"), vec![]); let y = pop_q(&mut o, &mut s, &mut v);
            if y != 0 { let x = y - 1; popped.fetch_add(1, Relaxed); sum.fetch_add(y, Relaxed); if o.id() != x || s != format!("s{}", x) || v.len() != 2 || v[1].a != x || v[1].s != x.to_string() { bad.fetch_add(1, Relaxed); } }
            let m = chan.with(|c| c.pop()); if let Some((c, sp, b, e, mut u, z)) = m { let zs = z.to_string(); u.pin_mut().set(z); if c.to_str() != Ok(&zs[..]) || sp.a != z || sp.s != zs || b.rget() != z || e.what() != zs || u.id() != z { bad.fetch_add(1, Relaxed); } } else if y == 0 && done { break } else { std::thread::yield_now() } }
    });
    let (mut o, mut s, mut v) = (UniquePtr::null(), String::new(), vec![]);
    loop { let y = pop_q(&mut o, &mut s, &mut v); if y == 0 { break } popped.fetch_add(1, Relaxed); sum.fetch_add(y, Relaxed); } drop(o); drop(chan);
    st_eq("pass.items", &(t * n as usize, want.load(Relaxed)), &(popped.load(Relaxed), sum.load(Relaxed))); st_eq("pass.contents", &0, &bad.load(Relaxed)); st_eq("pass.live", &(0, 0), &(live(), rlive()));
}
// concurrent readers of one set of values
#[no_mangle] extern "C" fn t_read() {
    let x = rnd() >> 8; let (s, v, c, cv, sp, b, p) = (rand_text(), (0..below(50) as u32).collect::<Vec<u32>>(), cstr(b"shared text of some length"), cvec(x, 20), SP { a: x, s: "zz".into(), v: vec![1, 2, 3] }, mk_robj(x), mk_obj(x)); let want = read_shared(&s, &v, &c, &cv, &sp, &b, &p); let t = 2 + below(6) as usize; let ba = Barrier::new(t);
    struct W<T>(T); unsafe impl<T> Sync for W<T> {} let all = W((&s, &v, &*c, &*cv, &sp, &b, &p));
    let got = par(t, |_| { let all = &all; let a = &all.0; ba.wait(); let g: Vec<u64> = (0..5).map(|_| read_shared(a.0, a.1, a.2, a.3, a.4, a.5, a.6)).collect(); let r = (a.2.to_string_lossy().len(), a.2.to_str().is_ok(), a.3.iter().len(), a.3.get(3).copied(), format!("{:?}", a.6.as_ref().map(|o| o.id()))); (g, r) });
    for g in got { st_eq("read.value", &vec![want; 5], &g.0); st_eq("read.rust", &(26, true, 20, cv.get(3).copied(), format!("{:?}", Some(x))), &g.1) } drop((b, p)); st_eq("read.live", &(0, 0), &(live(), rlive()));
}
fn worker_obj(t: u32, seed: u64, n: u32, p: &SharedPtr<Obj>, w: &WeakPtr<Obj>) -> String { let mut r = Rn(seed); let tag = p.id(); let (s, _w, bad) = churn(&mut r, n, p, w, tag); drop(s); let mut r = Rn(seed ^ t as u64); let o = own(&mut r, n / 2); if bad == 0 { o } else { format!("{} wrong objects {}", bad, o) } }
// the same from threads that C++ made
#[no_mangle] extern "C" fn t_pool() { let t = 2 + below(5) as usize; let x = rnd() >> 8; let p = mk_obj(x); let w = p.downgrade(); let r = unsafe { pool(t, rnd() >> 8, 30, &p, &w) }; st_eq("pool.results", &vec![String::new(); t], &r); st_eq("pool.count", &1, &cnt_obj(&p)); drop(p); st_eq("pool.expired", &true, &w.upgrade().is_null()); st_eq("pool.live", &(0, 0), &(live(), rlive())) }

// One thread lets the last owner go while others upgrade, again and again at close quarters: an upgrade gives a live owner of the object or none at all.
fn duel<T: Sh + 'static>(name: &str, mk: fn(u64) -> SharedPtr<T>, n: usize) {
    struct Slot<T: Sh> { root: std::cell::UnsafeCell<SharedPtr<T>>, weak: std::cell::UnsafeCell<WeakPtr<T>> } unsafe impl<T: Sh> Sync for Slot<T> {}
    let t = 1 + below(2) as usize; let base = rnd() >> 16; let seed = rnd();
    let slots: Vec<Slot<T>> = (0..n).map(|i| { let p = mk(base + i as u64); let w = p.downgrade(); Slot { root: p.into(), weak: w.into() } }).collect();
    let (at, some, none, bad) = (AtomicUsize::new(0), AtomicUsize::new(0), AtomicUsize::new(0), AtomicUsize::new(0));
    let meet = |k: usize| { at.fetch_add(1, std::sync::atomic::Ordering::AcqRel); let mut c = 0; while at.load(std::sync::atomic::Ordering::Acquire) < (k + 1) * (t + 1) { c += 1; if c > 2000 { std::thread::yield_now() } else { std::hint::spin_loop() } } };
    let ord = par(t + 1, |i| { let mut r = Rn(seed.wrapping_add(i as u64));
        for k in 0..n { let s = &slots[k];
            if i == t { let root = unsafe { std::mem::replace(&mut *s.root.get(), SharedPtr::null()) }; let d = r.b(60); meet(k); for _ in 0..d { std::hint::spin_loop() } drop(root); step() }
            else { let w = unsafe { &*s.weak.get() }; let w2 = w.clone(); let d = r.b(20); meet(k); for _ in 0..d { std::hint::spin_loop() }
                for _ in 0..50 { let p = if r.b(2) == 0 { w.upgrade() } else { w2.upgrade() }; match p.as_ref() { None => { none.fetch_add(1, Relaxed); break } Some(o) => { some.fetch_add(1, Relaxed); if o.tag() != base + k as u64 { bad.fetch_add(1, Relaxed); } } } } step() } }
        steps() });
    order(ord); st_eq(&format!("{}.objects", name), &0, &bad.load(Relaxed)); st_eq(&format!("{}.met_both", name), &true, &(some.load(Relaxed) + none.load(Relaxed) >= n * t));
    st_eq(&format!("{}.expired", name), &0, &slots.iter().filter(|s| !unsafe { &*s.weak.get() }.upgrade().is_null()).count());
}
#[no_mangle] extern "C" fn t_duel() {
    let n = 150; match below(4) { 0 => duel("duel.sp", |x| mk_sp(x), n), 1 => duel("duel.str", |x| mk_str(x), n), 2 => duel("duel.obj", |x| mk_obj(x), n), _ => duel("duel.u64", |x| mk_u64(x), n) } st_eq("duel.live", &0, &live());
}
