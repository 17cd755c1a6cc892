// Rust half of the support of generated bridge programs. Mirrors support.h.
use cxx::memory::{SharedPtrTarget, UniquePtrTarget, WeakPtrTarget};
use cxx::vector::VectorElement;
#[allow(unused_imports)]
use cxx::{CxxString, CxxVector, SharedPtr, UniquePtr, WeakPtr};
use std::ffi::c_void;
#[allow(unused_imports)]
use std::os::raw::c_char;
#[allow(unused_imports)]
use std::pin::Pin;
use std::cell::RefCell;
use std::mem::MaybeUninit;

extern "C" {
    fn rt_rand() -> u64;
    fn ev_send(slot: *const u8, sl: usize, p: *const u8, n: usize);
    fn ev_recv(slot: *const u8, sl: usize, p: *const u8, n: usize);
    fn ev_fail(slot: *const u8, sl: usize, p: *const u8, n: usize);
    fn reg_new(kind: *const u8, n: usize) -> u64;
    fn reg_del(id: u64);
    fn d_put(d: *mut c_void, p: *const u8, n: usize);
}
pub fn rnd() -> u64 { unsafe { rt_rand() } }
pub fn below(n: u64) -> u64 { rnd() % n }
pub fn coin(n: u64) -> bool { below(n) == 0 }

thread_local! {
    static ARENA: RefCell<Vec<Box<dyn FnOnce()>>> = RefCell::new(Vec::new());
    static DEPTH: std::cell::Cell<u32> = std::cell::Cell::new(0);
}
pub struct Deeper;
impl Deeper { pub fn new() -> Self { DEPTH.with(|d| d.set(d.get() + 1)); Deeper } }
impl Drop for Deeper { fn drop(&mut self) { DEPTH.with(|d| d.set(d.get() - 1)) } }
pub fn depth() -> u32 { DEPTH.with(|d| d.get()) }

pub fn keep<T: 'static>(v: T) -> *mut T {
    let p = Box::into_raw(Box::new(v));
    ARENA.with(|a| a.borrow_mut().push(Box::new(move || unsafe { drop(Box::from_raw(p)) })));
    p
}
pub fn keep_vec<T: 'static>(v: Vec<T>) -> &'static mut [T] {
    let p = Box::into_raw(v.into_boxed_slice());
    ARENA.with(|a| a.borrow_mut().push(Box::new(move || unsafe { drop(Box::from_raw(p)) })));
    unsafe { &mut *p }
}
#[no_mangle]
pub extern "C" fn rs_arena_clear() {
    loop {
        let f = ARENA.with(|a| a.borrow_mut().pop());
        match f { Some(f) => f(), None => break }
    }
}
#[no_mangle]
pub unsafe extern "C" fn rs_lossy(p: *const u8, n: usize, d: *mut c_void) {
    let s = String::from_utf8_lossy(if n == 0 { &[] } else { std::slice::from_raw_parts(p, n) });
    d_put(d, s.as_ptr(), s.len());
}
#[no_mangle]
pub unsafe extern "C" fn rs_utf8_valid(p: *const u8, n: usize) -> usize {
    std::str::from_utf8(if n == 0 { &[] } else { std::slice::from_raw_parts(p, n) }).is_ok() as usize
}

pub type D = Vec<u8>;
fn put(d: &mut D, s: &str) { d.extend_from_slice(s.as_bytes()) }
fn put_addr<T: ?Sized>(d: &mut D, p: *const T) { put(d, &format!("@{:x}", p as *const u8 as usize)) }
fn put_u(d: &mut D, v: u64) { put(d, &v.to_string()) }
fn put_bytes(d: &mut D, tag: &str, b: &[u8]) { put(d, tag); put_u(d, b.len() as u64); put(d, ":"); d.extend_from_slice(b) }

pub trait Dump { fn dump(&self, d: &mut D); }
pub trait Make: Sized + 'static {
    fn make() -> Self;
    fn mutate(&mut self) { *self = Self::make(); }
}
/// Objects made on the C++ side.
pub trait CxxMake {
    fn fresh() -> *mut Self;
    fn arena() -> *mut Self;
    fn shared(_out: *mut c_void) { unimplemented!() }
    fn weak(_out: *mut c_void) { unimplemented!() }
}

fn rand_bits(bytes: u32) -> u64 {
    let m = if bytes == 8 { !0 } else { (1u64 << (bytes * 8)) - 1 };
    let top = 1u64 << (bytes * 8 - 1);
    match below(8) {
        0 => 0, 1 => m, 2 => top, 3 => top - 1, 4 => below(4),
        5 => (top >> below((bytes * 8) as u64)) & m,
        _ => rnd() & m,
    }
}
pub fn rand_len() -> usize {
    const XL: [usize; 6] = [255, 256, 257, 300, 1025, 2000];
    if depth() <= 1 && coin(60) { return XL[below(6) as usize] }
    (if depth() > 2 { below(3) } else { match below(8) {
        0 => 0, 1 => 1, 2 => 2, 3 => 3 + below(6),
        4 => if depth() <= 1 { 17 + below(60) } else { 2 },
        _ => below(5),
    } }) as usize
}
fn text_len() -> usize {
    const L: [usize; 16] = [0, 0, 1, 2, 7, 8, 15, 16, 22, 23, 24, 31, 32, 33, 100, 1000];
    const XL: [usize; 8] = [255, 256, 4095, 4096, 5000, 65535, 65536, 70000];
    if depth() <= 1 && coin(300) { return XL[below(8) as usize] }
    L[below(if depth() > 2 { 8 } else { 16 }) as usize]
}
const SPECIAL: [&str; 16] = ["\u{feff}", " ", "\n", "\r\n", "\t", "\"", "'", "\\", "\u{fffd}", "\u{a0}", "\u{301}", "\u{2028}", "%s", "{}", "\u{7f}", "/"];
pub fn rand_text() -> String {
    let mut s = String::new();
    if coin(12) { s.push_str(SPECIAL[below(16) as usize]); if coin(2) { s.push_str(&rand_text()); s.push_str(SPECIAL[below(16) as usize]); } return s }
    let n = text_len();
    let mode = below(4);
    const EDGE: [char; 11] = ['\0', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{10ffff}'];
    while s.len() < n {
        s.push(match mode {
            0 => (b'a' + below(26) as u8) as char,
            1 => EDGE[below(11) as usize],
            _ => if coin(2) { char::from_u32(below(0x110000) as u32).unwrap_or('x') } else { (32 + below(95) as u8) as char },
        });
    }
    s
}
macro_rules! ints { ($($t:ident $u:ident $n:expr;)*) => {$(
    impl Make for $t { fn make() -> Self { rand_bits($n) as $t } }
    impl Dump for $t { fn dump(&self, d: &mut D) { put(d, "i"); put_u(d, *self as $u as u64) } }
)*}}
ints! { u8 u8 1; u16 u16 2; u32 u32 4; u64 u64 8; usize usize 8; i8 u8 1; i16 u16 2; i32 u32 4; i64 u64 8; isize usize 8; }
impl Make for bool { fn make() -> Self { rnd() & 1 == 1 } }
impl Dump for bool { fn dump(&self, d: &mut D) { put(d, "b"); put_u(d, unsafe { *(self as *const bool as *const u8) } as u64) } }
impl Make for f32 { fn make() -> Self {
    let mut b = rand_bits(4) as u32;
    if coin(3) { b = 0x7fc00000 | (b & 0x803fffff) } else if (b >> 23) & 255 == 255 { b &= 0xff800000 }
    f32::from_bits(b) } }
impl Dump for f32 { fn dump(&self, d: &mut D) { put(d, "f"); put_u(d, self.to_bits() as u64) } }
impl Make for f64 { fn make() -> Self {
    let mut b = rand_bits(8);
    if coin(3) { b = 0x7ff8000000000000 | (b & 0x8007ffffffffffff) } else if (b >> 52) & 2047 == 2047 { b &= 0xfff0000000000000 }
    f64::from_bits(b) } }
impl Dump for f64 { fn dump(&self, d: &mut D) { put(d, "d"); put_u(d, self.to_bits()) } }
impl Make for String { fn make() -> Self { let mut s = rand_text(); if coin(3) { s.reserve(below(40) as usize) } s } }
impl Dump for String { fn dump(&self, d: &mut D) { put_bytes(d, "s", self.as_bytes()) } }
impl Make for &'static str { fn make() -> Self { if coin(6) { return "" } let p = keep(rand_text()); unsafe { (*p).as_str() } } }
impl Dump for str { fn dump(&self, d: &mut D) { put(d, "t"); if !self.is_empty() { put_addr(d, self.as_ptr()) } put_bytes(d, "", self.as_bytes()) } }
impl<T: Make> Make for Vec<T> { fn make() -> Self {
    let _dd = Deeper::new();
    let mut v = Vec::new(); let n = rand_len();
    if coin(3) { v.reserve(n + below(4) as usize) }
    for _ in 0..n { v.push(T::make()) }
    v } }
impl<T: Dump> Dump for Vec<T> { fn dump(&self, d: &mut D) {
    put(d, "["); put_u(d, self.len() as u64);
    for x in self { put(d, "|"); x.dumpv(d) }
    put(d, "]") } }
impl<T: Make> Make for Box<T> { fn make() -> Self { let _dd = Deeper::new(); Box::new(T::make()) } }
impl<T: Dump> Dump for Box<T> { fn dump(&self, d: &mut D) { put(d, "B"); put_addr(d, &**self); (**self).dump(d) } }
impl<T: Make, const N: usize> Make for [T; N] { fn make() -> Self { let _dd = Deeper::new(); std::array::from_fn(|_| T::make()) } }
impl<T: Dump, const N: usize> Dump for [T; N] { fn dump(&self, d: &mut D) {
    put(d, "a["); for x in self { put(d, "|"); x.dumpv(d) } put(d, "]") } }
impl<T: Make> Make for &'static [T] { fn make() -> Self { <&'static mut [T]>::make() } }
impl<T: Make> Make for &'static mut [T] { fn make() -> Self {
    let _dd = Deeper::new();
    if coin(6) { return &mut [] }
    let n = rand_len(); keep_vec((0..n).map(|_| T::make()).collect()) }
    fn mutate(&mut self) { for x in self.iter_mut() { x.mutate() } } }
impl<T: Dump> Dump for [T] { fn dump(&self, d: &mut D) {
    put(d, "L"); if !self.is_empty() { put_addr(d, self.as_ptr()) }
    put(d, "["); put_u(d, self.len() as u64);
    for x in self { put(d, "|"); x.dumpv(d) }
    put(d, "]") } }
/// By-value dump: `&str` and slices are values (no outer address).
pub trait DumpV { fn dumpv(&self, d: &mut D); }
impl<T: Dump> DumpV for T { fn dumpv(&self, d: &mut D) { self.dump(d) } }
impl Dump for &str { fn dump(&self, d: &mut D) { (**self).dump(d) } }
impl<T: Dump> Dump for &[T] { fn dump(&self, d: &mut D) { (**self).dump(d) } }
impl<T: Dump> Dump for &mut [T] { fn dump(&self, d: &mut D) { (**self).dump(d) } }

impl Dump for CxxString { fn dump(&self, d: &mut D) { put_bytes(d, "c", self.as_bytes()) } }
impl<T: Dump + VectorElement> Dump for CxxVector<T> { fn dump(&self, d: &mut D) {
    put(d, "v"); put_u(d, self.len() as u64);
    for x in self { put(d, "|"); put_addr(d, x); x.dump(d) }
    put(d, "]") } }
impl<T: Dump + UniquePtrTarget> Dump for UniquePtr<T> { fn dump(&self, d: &mut D) {
    put(d, "U"); match self.as_ref() { None => put(d, "0"), Some(x) => { put_addr(d, x); x.dump(d) } } } }
impl<T: UniquePtrTarget + CxxMake + 'static> Make for UniquePtr<T> { fn make() -> Self {
    let _dd = Deeper::new();
    if coin(5) { return UniquePtr::null() } unsafe { UniquePtr::from_raw(T::fresh()) } } }
impl<T: Dump + SharedPtrTarget> Dump for SharedPtr<T> { fn dump(&self, d: &mut D) {
    put(d, "P"); match self.as_ref() { None => put(d, "0"), Some(x) => { put_addr(d, x); x.dump(d) } } } }
impl<T: SharedPtrTarget + CxxMake + 'static> Make for SharedPtr<T> { fn make() -> Self {
    let mut u = MaybeUninit::<SharedPtr<T>>::uninit();
    T::shared(u.as_mut_ptr().cast()); unsafe { u.assume_init() } } }
impl<T: Dump + SharedPtrTarget + WeakPtrTarget> Dump for WeakPtr<T> { fn dump(&self, d: &mut D) { put(d, "W"); self.upgrade().dump(d) } }
impl<T: WeakPtrTarget + CxxMake + 'static> Make for WeakPtr<T> { fn make() -> Self {
    let mut u = MaybeUninit::<WeakPtr<T>>::uninit();
    T::weak(u.as_mut_ptr().cast()); unsafe { u.assume_init() } } }
impl<T: Dump> Dump for *const T { fn dump(&self, d: &mut D) { put(d, "*"); if self.is_null() { put(d, "0") } else { put_addr(d, *self); unsafe { (**self).dump(d) } } } }
impl<T: Dump> Dump for *mut T { fn dump(&self, d: &mut D) { (*self as *const T).dump(d) } }

fn raw_send(slot: &str, d: &[u8]) { unsafe { ev_send(slot.as_ptr(), slot.len(), d.as_ptr(), d.len()) } }
fn raw_recv(slot: &str, d: &[u8]) { unsafe { ev_recv(slot.as_ptr(), slot.len(), d.as_ptr(), d.len()) } }
pub fn send_s(slot: &str, d: &[u8]) { raw_send(slot, d) }
pub fn recv_s(slot: &str, d: &[u8]) { raw_recv(slot, d) }
pub fn send_v<T: Dump + ?Sized>(slot: &str, v: &T) { let mut d = D::new(); v.dump(&mut d); raw_send(slot, &d) }
pub fn recv_v<T: Dump + ?Sized>(slot: &str, v: &T) { let mut d = D::new(); v.dump(&mut d); raw_recv(slot, &d) }
pub fn send_r<T: Dump>(slot: &str, v: &T) { let mut d = D::new(); put(&mut d, "&"); put_addr(&mut d, v); v.dump(&mut d); raw_send(slot, &d) }
pub fn recv_r<T: Dump>(slot: &str, v: &T) { let mut d = D::new(); put(&mut d, "&"); put_addr(&mut d, v); v.dump(&mut d); raw_recv(slot, &d) }
pub fn fail(slot: &str, m: &str) { unsafe { ev_fail(slot.as_ptr(), slot.len(), m.as_ptr(), m.len()) } }

pub struct Tracked { pub id: u64, pub s: String }
impl Tracked {
    pub fn new(kind: &str) -> Self { Tracked { id: unsafe { reg_new(kind.as_ptr(), kind.len()) }, s: rand_text() } }
    pub fn dump(&self, d: &mut D) { put(d, "R"); put_u(d, self.id); put_bytes(d, "s", self.s.as_bytes()) }
    pub fn mutate(&mut self) { self.s = rand_text() }
}
impl Drop for Tracked { fn drop(&mut self) { unsafe { reg_del(self.id) } self.id = 0xdeadbeef; } }

pub struct Err0(pub String);
impl std::fmt::Display for Err0 { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0) } }
pub fn rand_err() -> String { rand_text().replace('\0', "0") }
