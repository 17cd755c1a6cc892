//! The Rust half of bridges under Miri. What C++ would do at the other end of each symbol is done by
//! `mock`, written in Rust: the Rust side that runs here is the library's and the macro's own code.
#![allow(warnings)]
mod mock;
use cxx::private as p;
use cxx::{let_cxx_string, CxxString, CxxVector, SharedPtr, UniquePtr, WeakPtr};
use mock::*;

use std::hash::{Hash, Hasher};
use std::io::{Read, Seek, SeekFrom, Write};
use std::mem::{ManuallyDrop, MaybeUninit};
use std::pin::Pin;

#[cxx::bridge]
pub mod ffi {
    #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
    pub struct S { a: String, v: Vec<u8>, n: u64 }
    pub struct W { u: UniquePtr<C>, s: SharedPtr<C>, b: Box<R>, x: [u16; 3], e: En }
    pub struct L<'a> { s: &'a str, t: &'a [u16], r: &'a mut [u32] }
    #[derive(Debug, Clone, Copy, PartialEq)]
    pub struct P { x: u8, y: f64, z: bool }
    #[derive(Debug, PartialOrd, Ord, Hash)]
    #[repr(i16)]
    pub enum En { A = -7, B, C = 300 }
    extern "Rust" {
        type R;
        fn r_by(s: S, r: Box<R>, e: En, p: P) -> S;
        fn r_box(w: W) -> Box<R>;
        fn r_vec(v: Vec<String>, w: Vec<u32>, s: Vec<S>) -> Vec<String>;
        unsafe fn r_str<'a>(x: &'a str, y: &mut String) -> &'a str;
        fn r_vmut(x: &mut Vec<String>, y: &mut Vec<S>) -> usize;
        unsafe fn r_sl<'a>(x: &'a mut [u16], y: &[String]) -> &'a mut [u16];
        fn r_res(x: &str) -> Result<Vec<String>>;
        fn r_unit(x: &mut [u16]) -> Result<()>;
        fn r_ref(x: &Vec<S>) -> Result<&S>;
        fn r_uniq(x: UniquePtr<C>, y: SharedPtr<C>, z: WeakPtr<C>) -> UniquePtr<C>;
        fn r_opt(e: bool) -> Result<W>;
        unsafe fn r_l<'a>(l: L<'a>) -> &'a mut [u32];
        fn m(self: &mut R, c: Pin<&mut C>) -> &mut u8;
        fn k(self: &R, s: &S) -> String;
        unsafe fn vs<'a>(v: Vec<&'a str>) -> &'a str;
    }
    unsafe extern "C++" {
        type C;
        type D;
        fn c_by(s: S, r: Box<R>, e: En, p: P) -> S;
        fn c_vec(v: Vec<String>, w: Vec<u32>) -> Vec<String>;
        fn c_res(x: &str, y: String) -> Result<Vec<String>>;
        fn c_unit(x: &mut Vec<S>) -> Result<()>;
        fn c_w(w: W) -> Result<W>;
        fn c_fn(f: fn(S, &str) -> S, g: fn(u8), h: fn(&mut [u16], Box<R>) -> String, s: S) -> S;
        fn c_sl<'a>(x: &'a mut [u16], y: &CxxString) -> &'a mut [u16];
        fn c_ss(x: &[String]) -> String;
        fn c_new(n: u64) -> UniquePtr<C>;
        fn c_str(n: usize) -> UniquePtr<CxxString>;
        fn c_vc(n: u64) -> UniquePtr<CxxVector<C>>;
        fn get(self: &C) -> u64;
        fn cm(self: Pin<&mut C>, v: Vec<S>) -> Result<&mut u64>;
        fn cs(self: &C) -> SharedPtr<C>;
    }
    impl CxxVector<S> {}
    impl CxxVector<C> {}
    impl Box<S> {}
    impl SharedPtr<S> {}
    impl WeakPtr<C> {}
    impl WeakPtr<S> {}
    impl UniquePtr<S> {}
}
use ffi::*;

pub struct R(Box<u64>, u8);
impl Drop for R { fn drop(&mut self) { live(-1) } }
impl R {
    pub fn new(n: u64) -> Self { live(1); R(Box::new(n), n as u8) }
    fn m(&mut self, mut c: Pin<&mut C>) -> &mut u8 { self.1 ^= c.as_mut().get() as u8; let _ = c.cm(vec![]); &mut self.1 }
    fn k(&self, s: &S) -> String { format!("{}{}", self.0, s.a) }
}
fn r_by(mut s: S, r: Box<R>, e: En, p: P) -> S { s.v.push(r.1); s.a.push_str(&format!("{:?}{:?}", e, p)); s.n += *r.0; s }
fn r_box(w: W) -> Box<R> { assert_eq!(w.x, [1, 2, 3]); let mut b = w.b; b.1 += w.u.get() as u8; b }
fn r_vec(mut v: Vec<String>, w: Vec<u32>, s: Vec<S>) -> Vec<String> { v.extend(w.iter().map(|x| x.to_string())); v.extend(s.into_iter().map(|x| x.a)); v }
unsafe fn r_str<'a>(x: &'a str, y: &mut String) -> &'a str { y.push_str(x); x.get(1..).unwrap_or("") }
fn r_vmut(x: &mut Vec<String>, y: &mut Vec<S>) -> usize { x.push("new".into()); y.retain(|s| s.n % 2 == 0); x.iter_mut().for_each(|s| s.push('!')); y.len() }
unsafe fn r_sl<'a>(x: &'a mut [u16], y: &[String]) -> &'a mut [u16] { for (a, b) in x.iter_mut().zip(y) { *a = b.len() as u16 } let n = x.len() / 2; &mut x[n..] }
fn r_res(x: &str) -> Result<Vec<String>, String> { if x.len() % 2 == 1 { Err(x.to_owned()) } else { Ok(vec![x.to_owned(); x.len() / 2]) } }
fn r_unit(x: &mut [u16]) -> Result<(), String> { match x { [] => Err(String::new()), [a, ..] => { *a += 1; Ok(()) } } }
fn r_ref(x: &Vec<S>) -> Result<&S, String> { x.last().ok_or("none".into()) }
fn r_uniq(x: UniquePtr<C>, y: SharedPtr<C>, z: WeakPtr<C>) -> UniquePtr<C> { if let Some(c) = z.upgrade().as_ref() { assert_eq!(c.get(), y.get()); } x }
fn r_opt(e: bool) -> Result<W, String> { if e { Err("é".repeat(40)) } else { Ok(w(5)) } }
unsafe fn r_l<'a>(l: L<'a>) -> &'a mut [u32] { for (x, c) in l.r.iter_mut().zip(l.s.bytes()) { *x += c as u32 + l.t.len() as u32 } l.r }
unsafe fn vs<'a>(v: Vec<&'a str>) -> &'a str { v.iter().copied().max_by_key(|s| s.len()).unwrap_or("") }
pub fn w(n: u64) -> W { let u = c_new(n); let s = u.cs(); W { u, s, b: Box::new(R::new(n)), x: [1, 2, 3], e: En::C } }

pub fn text(r: &mut Rng) -> String { (0..r.below(12)).map(|_| ['a', 'é', '€', '𝄞', '\0', '\u{fffd}', 'z', '"'][r.below(8)]).collect() }
pub fn bytes(r: &mut Rng) -> Vec<u8> { let mut b = if r.below(2) == 0 { text(r).into_bytes() } else { (0..r.below(20)).map(|_| [0x61, 0x80, 0xc3, 0xa9, 0xe2, 0x82, 0xac, 0xf0, 0xff, 0][r.below(10)]).collect() }; if r.below(3) == 0 && !b.is_empty() { let i = r.below(b.len()); b.remove(i); } b }
pub fn s(r: &mut Rng) -> S { S { a: text(r), v: bytes(r), n: r.next() % 10 } }

fn strings(r: &mut Rng) {
    for _ in 0..4 {
        let b = bytes(r);
        let mut m = match std::str::from_utf8(&b) { Ok(x) => x.to_owned(), Err(_) => String::new() };
        let mut c = CppString::from_utf8(&b).unwrap_or_else(|| { assert!(std::str::from_utf8(&b).is_err()); CppString::new() });
        for _ in 0..r.below(6) {
            match r.below(7) {
                0 => { c = c.copy(); }
                1 => { c.reserve(r.below(40)); }
                2 => { let n = c.c_str(); assert_eq!(n, [m.as_bytes(), b"\0"].concat()); }
                3 => { let b = bytes(r); m = String::from_utf8_lossy(&b).into_owned(); c = CppString::lossy(&b); }
                4 => { let u: Vec<u16> = (0..r.below(5)).map(|_| [0x61, 0xd800, 0xdc00, 0x20ac][r.below(4)]).collect();
                       match String::from_utf16(&u) { Ok(x) => { m = x; c = CppString::utf16(&u).unwrap() } Err(_) => assert!(CppString::utf16(&u).is_none()) }
                       let l = CppString::utf16_lossy(&u); assert_eq!(l.get(), String::from_utf16_lossy(&u)); }
                5 => { assert_eq!(cpp_str(&c), m); }
                _ => { let b = bytes(r); assert_eq!(cpp_str_from(&b), std::str::from_utf8(&b).ok()); }
            }
            assert_eq!(c.get(), m); ev();
        }
    }
}

fn vec_ops<T: CppElem + Clone + PartialEq + std::fmt::Debug>(r: &mut Rng, mut make: impl FnMut(&mut Rng) -> T) {
    let mut m: Vec<T> = vec![]; let mut c = CppVec::<T>::new();
    for _ in 0..r.below(14) {
        match r.below(8) {
            0..=3 => { let x = make(r); m.push(x.clone()); c.push(x); }
            4 => { let n = r.below(20); c.reserve(n); assert!(c.capacity() >= n || std::mem::size_of::<T>() == 0); }
            5 => { let n = r.below(m.len() + 2); m.truncate(n); c.truncate(n); }
            6 if !m.is_empty() => { let i = r.below(m.len()); let x = make(r); m[i] = x.clone(); c.set(i, x); }
            7 => { let d = c.copy(); c = d; }
            _ => {}
        }
        assert_eq!(c.all(), &m[..]); ev();
    }
    if r.below(2) == 0 { let v = c.into_rust(); assert_eq!(v, m); }
}

fn rust_fns(r: &mut Rng) {
    for _ in 0..3 {
        let x = s(r); let n = r.next();
        let y = call_r_by(x.clone(), Box::new(R::new(n)), En::B, P { x: 3, y: 0.5, z: true });
        assert_eq!(y.n, x.n.wrapping_add(n)); assert_eq!(*y.v.last().unwrap(), n as u8); ev();
        let b = call_r_box(w(4)); assert_eq!(*b.0, 4); ev();
        let v: Vec<String> = (0..r.below(5)).map(|_| text(r)).collect();
        let o = call_r_vec(v.clone(), vec![1; r.below(4)], vec![x.clone(); r.below(3)]); assert!(o.starts_with(&v)); ev();
        let mut t = text(r); let src = text(r);
        let g = call_r_str(&src, &mut t); assert!(g.is_empty() || std::ptr::eq(&src[1..], g)); assert!(t.ends_with(&src)); ev();
        let mut a = v.clone(); let mut q: Vec<S> = (0..r.below(5)).map(|_| s(r)).collect();
        let k = call_r_vmut(&mut a, &mut q); assert_eq!(k, q.len()); assert_eq!(a.len(), v.len() + 1); ev();
        let mut h = vec![9u16; r.below(6)]; let hl = h.len();
        { let o = call_r_sl(&mut h, &v); assert_eq!(o.len(), hl - hl / 2); for x in o.iter_mut() { *x += 1 } } ev();
        match call_r_res(&src) { Ok(v) => assert_eq!(v.len(), src.len() / 2), Err(e) => assert_eq!(e, src) } ev();
        assert_eq!(call_r_unit(&mut h).is_err(), h.is_empty()); ev();
        match call_r_ref(&q) { Ok(z) => assert!(std::ptr::eq(z, q.last().unwrap())), Err(e) => assert_eq!(e, "none") } ev();
        let u = c_new(n); let sh = u.cs(); let wk = if r.below(2) == 0 { sh.downgrade() } else { WeakPtr::null() };
        let u = call_r_uniq(u, sh, wk); assert_eq!(u.get(), n); ev();
        match call_r_opt(r.below(2) == 0) { Ok(w) => assert_eq!(w.u.get(), 5), Err(e) => assert_eq!(e.len(), 80) } ev();
        let mut e = vec![1u32; r.below(5)]; let el = e.len();
        { let o = call_r_l(&src, &h, &mut e); assert_eq!(o.len(), el); for x in o { *x += 1 } } ev();
        let mut rr = R::new(n); let mut c = c_new(3);
        { let f = call_m(&mut rr, c.pin_mut()); *f = 77; } assert_eq!(rr.1, 77); ev();
        assert_eq!(call_k(&rr, &x), format!("{}{}", n, x.a)); ev();
        assert_eq!(call_vs(v.iter().map(|s| &s[..]).collect()).len(), v.iter().map(|s| s.len()).max().unwrap_or(0)); ev();
    }
}

fn cxx_fns(r: &mut Rng) {
    for _ in 0..3 {
        let x = s(r); let n = r.next();
        let y = c_by(x.clone(), Box::new(R::new(n)), En::A, P { x: 1, y: 1.5, z: false }); assert_eq!(y.n, x.n.wrapping_add(n)); ev();
        let v: Vec<String> = (0..r.below(5)).map(|_| text(r)).collect();
        assert_eq!(c_vec(v.clone(), vec![7; 3]).len(), v.len() + 1); ev();
        let t = text(r);
        match c_res(&t, t.clone()) { Ok(v) => assert_eq!(v, [t.clone()]), Err(e) => assert_eq!(e.what(), t) } ev();
        let mut q: Vec<S> = (0..r.below(4)).map(|_| s(r)).collect(); let l = q.len();
        match c_unit(&mut q) { Ok(()) => assert_eq!(q.len(), l + 1), Err(e) => assert_eq!((e.to_string().len(), format!("{:?}", e).len() > 5), (5, true)) } ev();
        match c_w(w(n)) { Ok(w) => assert_eq!(w.u.get(), n), Err(e) => assert_eq!(e.what(), "w") } ev();
        let z = c_fn(|mut s, t| { s.a.push_str(t); s }, |_| (), |x, b| { x.iter_mut().for_each(|y| *y += 1); b.0.to_string() }, x.clone()); assert!(z.a.starts_with(&x.a)); ev();
        let_cxx_string!(cs = &x.v); let mut h = vec![5u16; r.below(5)]; let hl = h.len();
        { let o = c_sl(&mut h, &cs); assert_eq!(o.len(), hl.saturating_sub(1)); for y in o { *y += 1 } } ev();
        assert_eq!(c_ss(&v), v.concat()); ev();
        let mut c = c_new(n);
        match c.pin_mut().cm(q) { Ok(f) => { *f += 1; assert_eq!(c.get(), n + 1) } Err(e) => assert_eq!(e.what(), "odd") } ev();
    }
}

fn hash<T: Hash + ?Sized>(x: &T) -> u64 { let mut h = std::collections::hash_map::DefaultHasher::new(); x.hash(&mut h); h.finish() }

fn cxx_strings(r: &mut Rng) {
    for _ in 0..4 {
        let mut m = bytes(r);
        let_cxx_string!(x = &m);
        for _ in 0..r.below(6) {
            match r.below(5) {
                0 => { let b = bytes(r); x.as_mut().push_bytes(&b); m.extend(b); }
                1 => { let t = text(r); x.as_mut().push_str(&t); m.extend(t.bytes()); }
                2 => { x.as_mut().clear(); m.clear(); }
                3 => { x.as_mut().reserve(r.below(50)); }
                _ => { std::fmt::Write::write_fmt(&mut x.as_mut(), format_args!("{}", 12)).unwrap(); m.extend(b"12"); }
            }
            assert_eq!(x.as_bytes(), &m[..]); assert_eq!(x.len(), m.len());
            assert_eq!(x.to_string(), String::from_utf8_lossy(&m)); assert_eq!(x.to_string_lossy(), String::from_utf8_lossy(&m));
            assert_eq!(x.to_str().ok(), std::str::from_utf8(&m).ok()); let _ = format!("{:?}", x); let _ = hash(&*x); let _ = x.as_c_str();
            ev();
        }
        let_cxx_string!(y = bytes(r)); assert_eq!((*x).cmp(&*y), m[..].cmp(y.as_bytes()));
        let e = std::panic::catch_unwind(|| { fn f() -> &'static str { panic!("v") } let_cxx_string!(z = f()); z.len() }); assert!(e.is_err());
        let mut u = c_str(r.below(30)); let l = u.len(); u.pin_mut().push_str("x"); assert_eq!(u.len(), l + 1); ev();
        let raw = u.into_raw(); let u = unsafe { UniquePtr::from_raw(raw) }; assert_eq!(u.as_bytes().len(), l + 1);
    }
}

fn cxx_vec<T: cxx::vector::VectorElement + cxx::ExternType<Kind = cxx::kind::Trivial> + Clone + PartialEq + std::fmt::Debug + Unpin>(r: &mut Rng, mut make: impl FnMut(&mut Rng) -> T) {
    let mut m: Vec<T> = vec![]; let mut v = CxxVector::<T>::new();
    for _ in 0..r.below(12) {
        match r.below(6) {
            0..=2 => { let x = make(r); m.push(x.clone()); v.pin_mut().push(x); }
            3 => assert_eq!(v.pin_mut().pop(), m.pop()),
            4 => { for (a, b) in v.pin_mut().iter_mut().zip(&mut m) { let x = make(r); *b = x.clone(); *a.get_mut() = x; } }
            _ => { if !m.is_empty() { let i = r.below(m.len()); let x = make(r); m[i] = x.clone(); *v.pin_mut().index_mut(i).unwrap().get_mut() = x; } }
        }
        assert_eq!(v.len(), m.len()); assert_eq!(v.is_empty(), m.is_empty());
        assert_eq!(v.as_slice(), &m[..]); assert!(v.iter().eq(m.iter())); assert!(v.into_iter().rev_eq(&m));
        assert_eq!(v.get(m.len()), None); assert!(v.pin_mut().index_mut(m.len()).is_none());
        if let Some(x) = v.pin_mut().as_mut_slice().last_mut() { let y = make(r); *m.last_mut().unwrap() = y.clone(); *x = y; }
        let mut it = v.iter(); it.next(); assert_eq!(it.len(), m.len().saturating_sub(1));
        { let mut it = v.pin_mut().iter_mut(); let a = it.next(); let b = it.next(); if let (Some(a), Some(b)) = (a, b) { std::mem::swap(a.get_mut(), b.get_mut()); m.swap(0, 1); } }
        assert_eq!(v.as_slice(), &m[..]); let _ = format!("{:?}", v); ev();
    }
    if r.below(3) == 0 { let raw = v.into_raw(); drop(unsafe { UniquePtr::from_raw(raw) }); }
}
trait RevEq<T> { fn rev_eq(self, m: &[T]) -> bool; }
impl<'a, T: PartialEq + 'a, I: Iterator<Item = &'a T>> RevEq<T> for I { fn rev_eq(self, m: &[T]) -> bool { self.collect::<Vec<_>>().iter().rev().copied().eq(m.iter().rev()) } }

fn pointers(r: &mut Rng) {
    let n = r.next();
    let mut u = c_new(n); assert_eq!(u.as_ref().unwrap().get(), n);
    assert!(UniquePtr::<C>::null().is_null()); assert!(std::panic::catch_unwind(|| UniquePtr::<C>::null().get()).is_err());
    let raw = u.into_raw(); let u = unsafe { UniquePtr::from_raw(raw) }; ev();
    let us = UniquePtr::new(s(r)); let _ = (format!("{:?}", us), hash(&us), us == UniquePtr::null(), us.cmp(&UniquePtr::null())); let mut us = us; us.as_mut().unwrap().get_mut().n = 3; ev();
    let mut sp: Vec<SharedPtr<C>> = vec![u.cs()]; let mut wp: Vec<WeakPtr<C>> = vec![WeakPtr::null()];
    for _ in 0..r.below(20) {
        match r.below(6) {
            0 => { let i = r.below(sp.len() + 1); if let Some(x) = sp.get(i).cloned() { sp.push(x) } else { sp.push(SharedPtr::null()) } }
            1 if !sp.is_empty() => { let i = r.below(sp.len()); sp.remove(i); }
            2 if !sp.is_empty() => wp.push(sp[r.below(sp.len())].downgrade()),
            3 => { let i = r.below(wp.len()); sp.push(wp[i].upgrade()); }
            4 if sp.len() > 1 => { let x = sp[0].clone(); let k = sp.len() - 1; sp[k] = x; }
            5 => { let i = r.below(wp.len()); wp.push(wp[i].clone()); if r.below(2) == 0 { wp[i] = WeakPtr::null() } }
            _ => {}
        }
        for x in &sp { if let Some(c) = x.as_ref() { assert_eq!(c.get(), n); } else { assert!(x.is_null()) } }
        ev();
    }
    let a = SharedPtr::new(s(r)); let w = a.downgrade(); let b = a.clone(); drop(a); assert!(w.upgrade() == b); drop(b); assert!(w.upgrade().is_null());
    let p = SharedPtr::new(5u8); assert_eq!((p.to_string(), *p.clone()), ("5".to_string(), 5)); let _ = SharedPtr::<f64>::null(); ev();
    // boxes as C++ makes them
    let b = cpp_box_s(s(r)); drop(b); cpp_box_abandoned(); ev();
    let mut io = c_new(0);
    io.write_all(b"hello").unwrap(); io.flush().unwrap(); io.seek(SeekFrom::Start(1)).unwrap(); let mut t = String::new(); io.read_to_string(&mut t).unwrap(); assert_eq!(t, "ello"); io.rewind().unwrap(); assert_eq!(io.stream_position().unwrap(), 0);
    let mut bytes = [0; 3]; io.read_exact(&mut bytes).unwrap(); assert_eq!(&bytes, b"hel"); io.write_fmt(format_args!("{}", 1)).unwrap(); ev();
    let vc = c_vc(r.next() % 5); for (i, c) in vc.iter().enumerate() { assert_eq!(c.get(), i as u64) } let mut vc = vc;
    for mut c in vc.pin_mut() { let _ = c.as_mut().cm(vec![]); } assert!(vc.get(99).is_none()); ev();
}
impl<'a> Read for Pin<&'a mut C> { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { cm_ref(self.as_mut()).buf.read(b) } }
impl<'a> Write for Pin<&'a mut C> { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { cm_ref(self.as_mut()).buf.write(b) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
impl<'a> Seek for Pin<&'a mut C> { fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> { cm_ref(self.as_mut()).buf.seek(p) } }

fn main() {
    let a: Vec<u64> = std::env::args().skip(1).map(|x| x.parse().unwrap()).collect();
    std::panic::set_hook(Box::new(|i| { let s = i.to_string(); if s.contains("main.rs") && !s.contains("\nv") || s.contains("mock.rs") { eprintln!("{s}") } }));
    let mut r = Rng(a[0].wrapping_mul(0x9e3779b97f4a7c15) | 1);
    for _ in 0..a[1] {
        strings(&mut r);
        vec_ops::<u8>(&mut r, |r| r.next() as u8); vec_ops::<bool>(&mut r, |r| r.below(2) == 0); vec_ops::<i64>(&mut r, |r| r.next() as i64); vec_ops::<f32>(&mut r, |r| r.below(9) as f32);
        vec_ops::<String>(&mut r, text); vec_ops::<&'static str>(&mut r, |r| ["", "a", "bc"][r.below(3)]); vec_ops::<S>(&mut r, s);
        rust_fns(&mut r); cxx_fns(&mut r); cxx_strings(&mut r);
        cxx_vec::<u8>(&mut r, |r| r.next() as u8); cxx_vec::<f64>(&mut r, |r| r.below(9) as f64); cxx_vec::<u64>(&mut r, |r| r.next()); cxx_vec::<S>(&mut r, s);
        pointers(&mut r);
        assert_eq!(alive(), 0, "objects destroyed exactly once");
    }
    println!("SUMMARY events={}", events());
}
