use ffi0::*;
use std::hash::{Hash, Hasher};
#[repr(C)] #[derive(Clone, Debug, PartialEq)] pub struct Tri { a: u16, b: u8 }
unsafe impl cxx::ExternType for Tri { type Id = cxx::type_id!("Tri"); type Kind = cxx::kind::Trivial; }
fn h<T: Hash>(t: &T) -> u64 { let mut s = std::collections::hash_map::DefaultHasher::new(); t.hash(&mut s); s.finish() }
trait El { fn es(&self) -> String; }
impl El for Opq { fn es(&self) -> String { self.id().to_string() } }
impl El for Renamed { fn es(&self) -> String { self.rid().to_string() } }
impl El for SP { fn es(&self) -> String { format!("{}/{}", self.a, self.s) } }
impl El for Tri { fn es(&self) -> String { format!("{}/{}", self.a, self.b) } }
impl El for CxxString { fn es(&self) -> String { format!("{:?}", self.as_bytes()) } }
trait Ops: Sized + SharedPtrTarget + WeakPtrTarget { const N: &'static str; fn mk(k: u8) -> SharedPtr<Self>; fn adr(p: &SharedPtr<Self>) -> usize; fn cnt(p: &SharedPtr<Self>) -> usize; fn hold(p: &SharedPtr<Self>); fn held(i: usize) -> SharedPtr<Self>; fn unhold(i: usize) -> SharedPtr<Self>; fn clear();
  fn echo(p: SharedPtr<Self>) -> SharedPtr<Self>; fn sink(p: SharedPtr<Self>); fn reset(p: &mut SharedPtr<Self>); fn wk(p: &SharedPtr<Self>) -> WeakPtr<Self>; fn wcnt(p: &WeakPtr<Self>) -> usize; fn wadr(p: &WeakPtr<Self>) -> usize; fn wecho(p: WeakPtr<Self>) -> WeakPtr<Self>; fn same(a: &SharedPtr<Self>, b: &SharedPtr<Self>) -> bool; fn s(&self) -> String; fn rust() -> Option<(SharedPtr<Self>, String)>; }
// Reference model: per control block, the owners there are.
#[derive(Clone, Copy, PartialEq, Debug)] struct H { blk: Option<usize>, addr: usize }
const NONE: H = H { blk: None, addr: 0 };
#[derive(Default)] struct M { strong: Vec<i64>, val: Vec<String> }
struct W<T: Ops> { m: M, p: Vec<SharedPtr<T>>, ph: Vec<H>, w: Vec<WeakPtr<T>>, wh: Vec<H>, ch: Vec<H> }
impl<T: Ops> W<T> {
    fn up(&mut self, h: H) -> H { if let Some(b) = h.blk { self.m.strong[b] += 1 } h }
    fn down(&mut self, h: H) { if let Some(b) = h.blk { self.m.strong[b] -= 1 } }
    fn n(&self, h: H) -> usize { h.blk.map_or(0, |b| self.m.strong[b] as usize) }
    fn set(&mut self, i: usize, v: SharedPtr<T>, h: H) { let o = self.ph[i]; self.down(o); self.p[i] = v; self.ph[i] = h; }
    fn check(&self) {
        let sl = |x: &str| format!("{}.{}", T::N, x);
        for (p, h) in self.p.iter().zip(&self.ph) {
            st_eq(&sl("addr"), &h.addr, &T::adr(p)); st_eq(&sl("use_count"), &self.n(*h), &T::cnt(p)); st_eq(&sl("is_null"), &(h.addr == 0), &p.is_null());
            st_eq(&sl("as_ref"), &h.addr, &p.as_ref().map_or(0, |x| x as *const T as *const u8 as usize)); st_eq(&sl("as_ref.none"), &(h.addr == 0), &p.as_ref().is_none());
            if let Some(x) = p.as_ref() { if let Some(b) = h.blk { st_eq(&sl("value"), &self.m.val[b], &x.s()); } st_eq(&sl("deref"), &h.addr, &(&**p as *const T as *const u8 as usize)) }
        }
        for (w, h) in self.w.iter().zip(&self.wh) {
            let n = self.n(*h); st_eq(&sl("weak.use_count"), &n, &T::wcnt(w)); st_eq(&sl("weak.lock"), &(if n > 0 { h.addr } else { 0 }), &T::wadr(w));
            let u = w.upgrade(); st_eq(&sl("upgrade.addr"), &(if n > 0 { h.addr } else { 0 }), &T::adr(&u)); st_eq(&sl("upgrade.count"), &(if n > 0 { n + 1 } else { 0 }), &T::cnt(&u)); drop(u); st_eq(&sl("upgrade.dropped"), &n, &T::wcnt(w));
           
        }
    }
}
fn run<T: Ops>() {
    let sl = |x: &str| format!("{}.{}", T::N, x);
    const K: usize = 4; const J: usize = 3;
    T::clear();
    let mut s = W::<T> { m: M::default(), p: (0..K).map(|_| SharedPtr::null()).collect(), ph: vec![NONE; K], w: (0..J).map(|_| WeakPtr::null()).collect(), wh: vec![NONE; J], ch: vec![] };
    s.check();
    for _ in 0..20 {
        let (i, j) = (below(K as u64) as usize, below(K as u64) as usize); let k = below(J as u64) as usize;
        match below(18) {
            0 | 1 => { let kind = below(6) as u8; let p = T::mk(kind); let a = T::adr(&p); let v = p.as_ref().map_or(String::new(), |x| x.s());
                let h = if kind == 0 || kind == 5 { H { blk: None, addr: a } } else { s.m.strong.push(1); s.m.val.push(v); H { blk: Some(s.m.strong.len() - 1), addr: a } };
                st_eq(&sl("made"), &(kind == 0 || kind == 4), &p.is_null()); s.set(i, p, h) }
            2 => if let Some((p, v)) = T::rust() { let a = T::adr(&p); st_ok(&sl("new"), a != 0); s.m.strong.push(1); s.m.val.push(v); let h = H { blk: Some(s.m.strong.len() - 1), addr: a }; s.set(i, p, h) },
            3 | 4 => { let c = s.p[j].clone(); let h = s.up(s.ph[j]); st_ok(&sl("clone"), T::same(&c, &s.p[j])); s.set(i, c, h) }
            5 => { s.set(i, SharedPtr::null(), NONE) }
            6 => { let c = s.p[i].clone(); s.up(s.ph[i]); let h = s.ph[i]; drop(c); s.down(h) }
            7 => { s.p.swap(i, j); s.ph.swap(i, j) }
            8 => { T::hold(&s.p[i]); let h = s.up(s.ph[i]); s.ch.push(h) }
            9 => if !s.ch.is_empty() { let n = below(s.ch.len() as u64) as usize; let h = s.ch.remove(n); let p = T::unhold(n); s.set(i, p, h) },
            10 => if !s.ch.is_empty() { let n = below(s.ch.len() as u64) as usize; let h = s.up(s.ch[n]); let p = T::held(n); s.set(i, p, h) },
            11 => { let t = std::mem::replace(&mut s.p[i], SharedPtr::null()); let t = T::echo(t); s.p[i] = t }
            12 => { let t = std::mem::replace(&mut s.p[i], SharedPtr::null()); T::sink(t); let h = s.ph[i]; s.down(h); s.ph[i] = NONE }
            13 => { T::reset(&mut s.p[i]); let h = s.ph[i]; s.down(h); s.ph[i] = NONE }
            14 => { s.w[k] = if coin(2) { s.p[i].downgrade() } else { T::wk(&s.p[i]) }; s.wh[k] = if s.ph[i].blk.is_some() { s.ph[i] } else { NONE } }
            15 => { let n = below(J as u64) as usize; s.w[k] = s.w[n].clone(); s.wh[k] = s.wh[n] }
            16 => { let u = s.w[k].upgrade(); let h = if s.n(s.wh[k]) > 0 { let h = s.wh[k]; s.up(h) } else { NONE }; s.set(i, u, h) }
            _ => { let t = std::mem::replace(&mut s.w[k], WeakPtr::null()); s.w[k] = T::wecho(t); if coin(3) { s.w[k] = WeakPtr::null(); s.wh[k] = NONE } }
        }
        s.check();
    }
    if let Some(p) = s.p.iter().find(|p| p.is_null()) { let t = if T::N == "o" { "Opq" } else if T::N == "sp" { "SP" } else if T::N == "t" { "Tri" } else if T::N == "r" { "Renamed" } else if T::N == "s" { "CxxString" } else { T::N };
        st_eq(&sl("deref.null"), &Err::<(), _>(format!("called deref on a null SharedPtr<{}>", t)), &catch(|| { (**p).s(); })) }
    while s.ch.pop().is_some() { }
    // owners dropped while unwinding
    let p = std::mem::take(&mut s.p); let w = std::mem::take(&mut s.w); let r: Result<(), String> = catch(move || { let _p = p; let _w = w; panic!("x") }); st_ok(&sl("unwind"), r.is_err());
    T::clear();
}
@OPS@
#[no_mangle] extern "C" fn t_misc() {
    let v = rnd() >> 9; let p = mk_base(v); st_eq("base.val", &(if v % 2 == 1 { v * 2 + 1 } else { v }), &p.bval()); let q = p.clone(); st_eq("base.count", &2usize, &base_cnt(&q));
    let w = q.self_weak(); st_eq("base.from_this", &(&*p as *const Base as usize), &(&*w.upgrade() as *const Base as usize)); drop(p); st_eq("base.count.1", &1usize, &base_cnt(&q)); drop(q); st_ok("base.expired", w.upgrade().is_null());
    st_eq("size", &(2 * std::mem::size_of::<*mut u8>()), &std::mem::size_of::<SharedPtr<Opq>>()); st_eq("wsize", &(2 * std::mem::size_of::<*mut u8>()), &std::mem::size_of::<WeakPtr<Opq>>());
    // handles used from other threads: counts stay exact once they are joined
    let p = mk_sp(1); let n = 1 + below(4); let ts: Vec<_> = (0..n).map(|_| { let p = p.clone(); std::thread::spawn(move || { let mut k = 0; for _ in 0..50 { let w = p.downgrade(); let c = p.clone(); let u = w.upgrade(); if !u.is_null() { k += 1 } drop(c); } k }) }).collect();
    for t in ts { st_eq("threads.upgraded", &50, &t.join().unwrap()) } st_eq("threads.count", &1usize, &cnt_sp(&p));
}
#[no_mangle] extern "C" fn t_cmp() {
    let mk = || match below(4) { 0 => None, _ => Some(SP { a: below(3) as u32, s: if coin(2) { "a".into() } else { rand_text() } }) };
    let (a, b) = (mk(), mk()); let b = if coin(4) { a.clone() } else { b };
    let up = |x: &Option<SP>| match x { None => SharedPtr::null(), Some(x) => if coin(2) { make_sp(x.a, &x.s) } else { SharedPtr::new(x.clone()) } };
    let (x, y) = (up(&a), up(&b));
    st_eq("eq", &(a == b), &(x == y)); st_eq("ne", &(a != b), &(x != y)); st_eq("cmp", &a.cmp(&b), &x.cmp(&y)); st_eq("pcmp", &a.partial_cmp(&b), &x.partial_cmp(&y)); st_eq("lt", &(a < b), &(x < y)); st_eq("ge", &(a >= b), &(x >= y)); st_eq("hash", &h(&a), &h(&x)); if a == b { st_eq("hash.eq", &h(&x), &h(&y)) }
    st_eq("debug", &match &a { None => "nullptr".to_string(), Some(v) => format!("{:?}", v) }, &format!("{:?}", x)); st_eq("debug.alt", &match &a { None => "nullptr".to_string(), Some(v) => format!("{:#?}", v) }, &format!("{:#?}", x));
    let t = rand_text(); let s = make_str(t.as_bytes()); st_eq("display", &t, &format!("{}", s)); st_eq("display.null", &"nullptr".to_string(), &format!("{}", SharedPtr::<CxxString>::null())); let f = SharedPtr::new(1.5f64); let g = SharedPtr::new(f64::NAN); st_eq("pcmp.nan", &None::<std::cmp::Ordering>, &f.partial_cmp(&g)); st_ok("eq.nan", g != g.clone());
    st_eq("weak.debug", &format!("{:?}", x), &format!("{:?}", x.downgrade())); let k = make_tri(7); st_eq("tri", &"7/1".to_string(), &k.es());
}
