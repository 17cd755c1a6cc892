use ffi0::*;
use cxx::vector::VectorElement as VE;
#[repr(C)] #[derive(Clone, Debug)] pub struct Tri { a: i16, b: [u8; 3] }
unsafe impl cxx::ExternType for Tri { type Id = cxx::type_id!("Tri"); type Kind = cxx::kind::Trivial; }
#[repr(C)] #[derive(Debug)] pub struct Rel { id: u64, heap: *mut u64 }
unsafe impl cxx::ExternType for Rel { type Id = cxx::type_id!("Rel"); type Kind = cxx::kind::Trivial; }
extern "C" { fn rel_drop(r: *mut Rel); fn rel_make(r: *mut Rel, v: u64); }
impl Drop for Rel { fn drop(&mut self) { unsafe { rel_drop(self) } } }
pub trait El { fn s(&self) -> String; fn alter(self: Pin<&mut Self>); }
pub trait Mk: El + Sized { fn mk() -> Self; fn dbg(&self) -> String; }
macro_rules! prim { ($($t:ty)*) => { $( impl El for $t { fn s(&self) -> String { self.to_string() } fn alter(mut self: Pin<&mut Self>) { *self = Self::mk() } } impl Mk for $t { fn mk() -> Self { <$t as Make>::make() } fn dbg(&self) -> String { format!("{:?}", self) } } )* } }
prim!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize);
macro_rules! fl { ($($t:ty)*) => { $( impl El for $t { fn s(&self) -> String { self.to_bits().to_string() } fn alter(mut self: Pin<&mut Self>) { *self = Self::mk() } } impl Mk for $t { fn mk() -> Self { <$t as Make>::make() } fn dbg(&self) -> String { format!("{:?}", self) } } )* } }
fl!(f32 f64);
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
impl El for SP { fn s(&self) -> String { format!("{},{},{}", self.a, hex(self.s.as_bytes()), self.d) } fn alter(mut self: Pin<&mut Self>) { *self = Self::mk() } } impl Mk for SP { fn mk() -> Self { SP { a: rnd() as u32, s: rand_text(), d: rnd() as u8 } } fn dbg(&self) -> String { format!("{:?}", self) } }
impl El for En { fn s(&self) -> String { self.repr.to_string() } fn alter(mut self: Pin<&mut Self>) { *self = Self::mk() } } impl Mk for En { fn mk() -> Self { [En::A, En::B, En::C][below(3) as usize] } fn dbg(&self) -> String { format!("{:?}", self) } }
impl El for Tri { fn s(&self) -> String { format!("{},{},{}", self.a, self.b[0], self.b[2]) } fn alter(mut self: Pin<&mut Self>) { *self = Self::mk() } } impl Mk for Tri { fn mk() -> Self { Tri { a: rnd() as i16, b: [rnd() as u8, 5, rnd() as u8] } } fn dbg(&self) -> String { format!("{:?}", self) } }
impl El for Rel { fn s(&self) -> String { unsafe { *self.heap }.to_string() } fn alter(mut self: Pin<&mut Self>) { *self = Self::mk() } } impl Mk for Rel { fn mk() -> Self { let mut r = std::mem::MaybeUninit::uninit(); unsafe { rel_make(r.as_mut_ptr(), rnd()); r.assume_init() } } fn dbg(&self) -> String { format!("{:?}", self) } }
impl El for CxxString { fn s(&self) -> String { hex(self.as_bytes()) } fn alter(mut self: Pin<&mut Self>) { let t = rand_text(); self.as_mut().clear(); self.push_str(&t) } }
impl El for Opq { fn s(&self) -> String { self.oid().to_string() } fn alter(self: Pin<&mut Self>) { self.oset(rnd()) } }
fn whole(m: &[String]) -> String { let mut s = format!("[{}", m.len()); for x in m { s.push('|'); s += x } s.push(']'); s }
fn sub<T: El>(a: &mut dyn Iterator<Item = &T>) {}
fn read<T: VE + El>(v: &CxxVector<T>) -> Vec<String> { (0..v.len()).map(|i| v.get(i).unwrap().s()).collect() }
fn state<T: VE + El>(n: &'static str, m: &[String], v: &CxxVector<T>, vd: fn(&CxxVector<T>) -> String, va: fn(&CxxVector<T>) -> usize) {
    let sl = |x: &str| format!("{}.{}", n, x);
    st_eq(&sl("cxx"), &whole(m), &vd(v)); st_eq(&sl("len"), &m.len(), &v.len()); st_eq(&sl("is_empty"), &m.is_empty(), &v.is_empty());
    st_eq(&sl("get"), &m, &&read(v)[..]);
    for p in [m.len(), m.len() + below(4) as usize, usize::MAX - below(3) as usize, 1usize << 63 | below(4) as usize] { if p >= m.len() { st_ok(&sl("get.oob"), v.get(p).is_none()) } }
    st_eq(&sl("iter"), &m, &&v.iter().map(El::s).collect::<Vec<_>>()[..]);
    let mut a = vec![]; for x in v { a.push(x.s()) } st_eq(&sl("into_iter"), &m, &&a[..]);
    let mut it = v.iter(); let mut k = 0; loop { st_eq(&sl("iter.len"), &(m.len() - k), &it.len()); st_eq(&sl("iter.hint"), &(m.len() - k, Some(m.len() - k)), &it.size_hint()); if it.next().is_none() { break } k += 1; }
    st_eq(&sl("iter.count"), &m.len(), &k); st_ok(&sl("iter.fused"), it.next().is_none() && it.next().is_none() && it.len() == 0);
    let j = below(m.len() as u64 + 2) as usize; st_eq(&sl("iter.nth"), &m.get(j).cloned(), &v.iter().nth(j).map(El::s)); st_eq(&sl("iter.last"), &m.last().cloned(), &v.iter().last().map(El::s)); st_eq(&sl("iter.skip"), &m.len().saturating_sub(j), &v.iter().skip(j).count());
    if !m.is_empty() { st_eq(&sl("addr"), &va(v), &(v.get(0).unwrap() as *const T as usize)); let i = below(m.len() as u64) as usize; st_eq(&sl("unchecked"), &(v.get(i).unwrap() as *const T), &(unsafe { v.get_unchecked(i) } as *const T)); st_eq(&sl("unchecked.val"), &m[i], &unsafe { v.get_unchecked(i) }.s()); }
}
fn alter<T: VE + El>(n: &'static str, m: &mut Vec<String>, mut v: Pin<&mut CxxVector<T>>) {
    let sl = |x: &str| format!("{}.{}", n, x);
    let past = if coin(2) { m.len() + below(3) as usize } else { usize::MAX };
    st_ok(&sl("index_mut.oob"), v.as_mut().index_mut(past).is_none());
    match below(3) {
        0 => if !m.is_empty() { let i = below(m.len() as u64) as usize; let mut e = v.as_mut().index_mut(i).unwrap(); e.as_mut().alter(); m[i] = e.s(); st_eq(&sl("index_mut"), &m[i], &v.get(i).unwrap().s()) }
        1 => { let mut k = 0; let want = m.len(); { let mut it = v.as_mut().iter_mut(); st_eq(&sl("iter_mut.len"), &want, &it.len()); while let Some(mut e) = it.next() { if coin(2) { e.as_mut().alter(); } m[k] = e.s(); k += 1; st_eq(&sl("iter_mut.hint"), &(want - k, Some(want - k)), &it.size_hint()) } st_ok(&sl("iter_mut.fused"), it.next().is_none()); } st_eq(&sl("iter_mut.count"), &want, &k) }
        _ => { let mut k = 0; for e in v.as_mut() { let mut e: Pin<&mut T> = e; if k % 2 == 0 { e.as_mut().alter() } m[k] = e.s(); k += 1 } st_eq(&sl("into_iter_mut.count"), &m.len(), &k);
            if !m.is_empty() { let i = below(m.len() as u64) as usize; let mut e = unsafe { v.as_mut().index_unchecked_mut(i) }; e.as_mut().alter(); m[i] = e.s() } }
    }
    st_eq(&sl("alter"), &&m[..], &&read(&v)[..]);
}
trait Tr<T> where T: VE { fn by_value(n: &'static str, m: &mut Vec<String>, v: Pin<&mut CxxVector<T>>); }
fn by_value<T: VE + Mk + std::fmt::Debug + cxx::ExternType<Kind = cxx::kind::Trivial>>(n: &'static str, m: &mut Vec<String>, mut v: Pin<&mut CxxVector<T>>) {
    let sl = |x: &str| format!("{}.{}", n, x);
    match below(7) {
        0 | 1 => { let x = T::mk(); m.push(x.s()); v.as_mut().push(x) }
        2 => { let k = below(4); for _ in 0..k { let x = T::mk(); m.push(x.s()); v.as_mut().push(x) } }
        3 | 4 => { let g = v.as_mut().pop(); st_eq(&sl("pop"), &m.pop(), &g.as_ref().map(El::s)); }
        5 => { if let Some(x) = v.as_mut().pop() { v.as_mut().push(x) } }
        _ => { st_eq(&sl("as_slice"), &&m[..], &&v.as_slice().iter().map(El::s).collect::<Vec<_>>()[..]); if !m.is_empty() { st_eq(&sl("as_slice.ptr"), &v.as_slice().as_ptr(), &(v.get(0).unwrap() as *const T)) }
            let s = v.as_mut().as_mut_slice(); st_eq(&sl("as_mut_slice.len"), &m.len(), &s.len()); s.reverse(); m.reverse(); if !m.is_empty() { let i = below(m.len() as u64) as usize; s[i] = T::mk(); m[i] = s[i].s() } s.sort_by_key(El::s); m.sort(); }
    }
    let d: Vec<String> = v.iter().map(Mk::dbg).collect(); st_eq(&sl("debug"), &format!("[{}]", d.join(", ")), &format!("{:?}", &*v));
}
macro_rules! vt {
    (@bv tr $n:ident, $m:expr, $v:expr) => { by_value(stringify!($n), $m, $v) };
    (@bv op $n:ident, $m:expr, $v:expr) => { {} };
    ($k:ident $n:ident, $t:ty, $vd:ident, $va:ident, $vgrow:ident, $vcut:ident, $vecho:ident, $vmk:ident, $vself:ident, $vselfm:ident, $test:ident) => {
        #[no_mangle] extern "C" fn $test() {
            let n = stringify!($n);
            let mut v: UniquePtr<CxxVector<$t>> = if coin(3) { CxxVector::new() } else { $vmk(rand_len(), below(4) as usize) };
            let mut m = read(&v);
            for _ in 0..14 {
                match below(8) {
                    0 => { let k = rand_len(); let old = m.len(); $vgrow(v.pin_mut(), k); let now = read(&v); st_eq(concat!(stringify!($n), ".grow"), &&m[..], &&now[..old]); st_eq(concat!(stringify!($n), ".grow.len"), &(old + k), &now.len()); m = now }
                    1 => { let k = below(m.len() as u64 + 1) as usize; $vcut(v.pin_mut(), k); m.truncate(k) }
                    2 => { let p: *const CxxVector<$t> = &*v; v = $vecho(v); st_eq(concat!(stringify!($n), ".echo.addr"), &p, &(&*v as *const _)) }
                    3 => { let p = v.into_raw(); v = unsafe { UniquePtr::from_raw(p) }; }
                    4 => { let r = $vself(&v); st_eq(concat!(stringify!($n), ".ref"), &(&*v as *const CxxVector<$t>), &(r as *const _)); let r = $vselfm(v.pin_mut()); let q: *const CxxVector<$t> = &*r; st_eq(concat!(stringify!($n), ".refmut"), &(&*v as *const CxxVector<$t>), &q) }
                    5 => alter(n, &mut m, v.pin_mut()),
                    6 => { let mut w: UniquePtr<CxxVector<$t>> = UniquePtr::null(); st_ok(concat!(stringify!($n), ".null"), w.is_null() && w.as_ref().is_none() && w.as_mut().is_none()); std::mem::swap(&mut v, &mut w); st_ok(concat!(stringify!($n), ".swapped"), v.is_null()); v = w; }
                    _ => vt!(@bv $k $n, &mut m, v.pin_mut()),
                }
                if m.len() > 150 { v = CxxVector::new(); m.clear() }
                state(n, &m, &v, $vd, $va);
            }
        }
    };
}
@TESTS@
#[no_mangle] extern "C" fn t_own() {
    let n = rand_len() % 100; let o = own_mk(n); st_eq("own.len", &n, &o.v.len()); st_eq("own.n", &(n as u8), &o.n); if coin(2) { st_eq("own.take", &n, &own_take(o)) } else if coin(2) { let Own { v, n: _ } = o; drop(v) }
}
fn big<T: VE + Mk + std::fmt::Debug + cxx::ExternType<Kind = cxx::kind::Trivial>>(n: &'static str, len: usize, mut v: UniquePtr<CxxVector<T>>, vd: fn(&CxxVector<T>) -> String, va: fn(&CxxVector<T>) -> usize) {
    let sl = |x: &str| format!("big.{}.{}", n, x);
    let mut m: Vec<String> = v.iter().map(El::s).collect();
    for _ in 0..300 { let x = T::mk(); m.push(x.s()); v.pin_mut().push(x) }
    st_eq(&sl("len"), &(len + 300), &v.len());
    let a = va(&v);
    for k in 0..2000 { let i = if k % 2 == 0 { len + 300 - 1 - below(3000) as usize % (len + 300) } else { below(len as u64 + 300) as usize };
        st_eq(&sl("get"), &m[i], &v.get(i).unwrap().s()); st_eq(&sl("addr"), &(a + i * std::mem::size_of::<T>()), &(v.get(i).unwrap() as *const T as usize));
        if k % 8 == 0 { let mut e = v.pin_mut().index_mut(i).unwrap(); e.as_mut().alter(); m[i] = e.s() } }
    let mut bad = 0; for (i, x) in v.iter().enumerate() { if m[i] != x.s() { bad += 1 } } st_eq(&sl("iter"), &0, &bad);
    let s = v.as_slice(); st_eq(&sl("as_slice"), &m.len(), &s.len()); st_ok(&sl("as_slice.all"), s.iter().map(El::s).eq(m.iter().cloned()));
    for _ in 0..600 { st_eq(&sl("pop"), &m.pop(), &v.pin_mut().pop().as_ref().map(El::s)); }
    st_ok(&sl("cxx"), whole(&m) == vd(&v));
}
#[no_mangle] extern "C" fn t_big() {
    static DONE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let n = 66000 + below(6000) as usize;
    match DONE.fetch_add(1, std::sync::atomic::Ordering::Relaxed) { 0 => big("u8", n * 2, vmk_u8(n * 2, 0), vd_u8, va_u8), 1 => big("sp", n, vmk_sp(n, 5), vd_sp, va_sp), 2 => big("u64", n, vmk_u64(n, 299), vd_u64, va_u64), 3 => big("tri", n, vmk_tri(n, 0), vd_tri, va_tri), 4 => big("rel", n / 8, vmk_rel(n / 8, 0), vd_rel, va_rel), _ => {} }
}
