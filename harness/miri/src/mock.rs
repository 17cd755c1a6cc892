//! What the C++ side does, in Rust.
use super::*;
use std::alloc::{alloc, dealloc, Layout};
use std::ffi::c_void;
use std::io::Cursor;
use std::ptr::{self, NonNull};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

static LIVE: AtomicI64 = AtomicI64::new(0);
static EV: AtomicU64 = AtomicU64::new(0);
pub fn live(n: i64) { LIVE.fetch_add(n, Relaxed); }
pub fn alive() -> i64 { LIVE.load(Relaxed) }
pub fn ev() { EV.fetch_add(1, Relaxed); }
pub fn events() -> u64 { EV.load(Relaxed) }
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0 >> 3 }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n.max(1) as u64) as usize }
}

// ---- rust::String, rust::Str -----------------------------------------------
extern "C" {
    #[link_name = "cxxbridge1$string$new"] fn string_new(t: *mut c_void);
    #[link_name = "cxxbridge1$string$clone"] fn string_clone(t: *mut c_void, o: *const c_void);
    #[link_name = "cxxbridge1$string$from_utf8"] fn string_from_utf8(t: *mut c_void, p: *const u8, n: usize) -> bool;
    #[link_name = "cxxbridge1$string$from_utf8_lossy"] fn string_lossy(t: *mut c_void, p: *const u8, n: usize);
    #[link_name = "cxxbridge1$string$from_utf16"] fn string_utf16(t: *mut c_void, p: *const u16, n: usize) -> bool;
    #[link_name = "cxxbridge1$string$from_utf16_lossy"] fn string_utf16_lossy(t: *mut c_void, p: *const u16, n: usize);
    #[link_name = "cxxbridge1$string$drop"] fn string_drop(t: *mut c_void);
    #[link_name = "cxxbridge1$string$ptr"] fn string_ptr(t: *const c_void) -> *const u8;
    #[link_name = "cxxbridge1$string$len"] fn string_len(t: *const c_void) -> usize;
    #[link_name = "cxxbridge1$string$capacity"] fn string_cap(t: *const c_void) -> usize;
    #[link_name = "cxxbridge1$string$reserve_additional"] fn string_more(t: *mut c_void, n: usize);
    #[link_name = "cxxbridge1$string$reserve_total"] fn string_total(t: *mut c_void, n: usize);
    #[link_name = "cxxbridge1$str$new"] fn str_new(t: *mut c_void);
    #[link_name = "cxxbridge1$str$ref"] fn str_ref(t: *mut c_void, s: *const c_void);
    #[link_name = "cxxbridge1$str$from"] fn str_from(t: *mut c_void, p: *const u8, n: usize) -> bool;
    #[link_name = "cxxbridge1$str$ptr"] fn str_ptr(t: *const c_void) -> *const u8;
    #[link_name = "cxxbridge1$str$len"] fn str_len(t: *const c_void) -> usize;
    #[link_name = "cxxbridge1$slice$new"] fn slice_new(t: *mut c_void, p: *const c_void, n: usize);
    #[link_name = "cxxbridge1$slice$ptr"] fn slice_ptr(t: *const c_void) -> *mut c_void;
    #[link_name = "cxxbridge1$slice$len"] fn slice_len(t: *const c_void) -> usize;
}
/// The bytes of a C++ object, which C++ leaves uninitialized before construction.
pub struct CppString([MaybeUninit<usize>; 3]);
impl CppString {
    fn raw() -> Self { CppString([MaybeUninit::uninit(); 3]) }
    fn m(&mut self) -> *mut c_void { self as *mut _ as _ }
    fn c(&self) -> *const c_void { self as *const _ as _ }
    pub fn new() -> Self { let mut s = ManuallyDrop::new(Self::raw()); unsafe { string_new(s.m()) } ManuallyDrop::into_inner(s) }
    pub fn from_utf8(b: &[u8]) -> Option<Self> { let mut s = ManuallyDrop::new(Self::raw()); unsafe { string_from_utf8(s.m(), b.as_ptr(), b.len()) }.then(|| ManuallyDrop::into_inner(s)) }
    pub fn lossy(b: &[u8]) -> Self { let mut s = ManuallyDrop::new(Self::raw()); unsafe { string_lossy(s.m(), b.as_ptr(), b.len()) } ManuallyDrop::into_inner(s) }
    pub fn utf16(b: &[u16]) -> Option<Self> { let mut s = ManuallyDrop::new(Self::raw()); unsafe { string_utf16(s.m(), b.as_ptr(), b.len()) }.then(|| ManuallyDrop::into_inner(s)) }
    pub fn utf16_lossy(b: &[u16]) -> Self { let mut s = ManuallyDrop::new(Self::raw()); unsafe { string_utf16_lossy(s.m(), b.as_ptr(), b.len()) } ManuallyDrop::into_inner(s) }
    pub fn copy(&self) -> Self { let mut s = ManuallyDrop::new(Self::raw()); unsafe { string_clone(s.m(), self.c()) } ManuallyDrop::into_inner(s) }
    pub fn reserve(&mut self, n: usize) { unsafe { string_total(self.m(), n); assert!(string_cap(self.c()) >= n) } }
    pub fn c_str(&mut self) -> Vec<u8> { unsafe { let n = string_len(self.c()); string_more(self.m(), 1); assert!(string_cap(self.c()) > n); let mut v = std::slice::from_raw_parts(string_ptr(self.c()), n).to_vec(); v.push(0); v } }
    pub fn get(&self) -> &str { unsafe { std::str::from_utf8(std::slice::from_raw_parts(string_ptr(self.c()), string_len(self.c()))).unwrap() } }
    pub fn take(self) -> [MaybeUninit<usize>; 3] { ManuallyDrop::new(self).0 }
}
impl Drop for CppString { fn drop(&mut self) { unsafe { string_drop(self.m()) } } }
pub fn cpp_str(s: &CppString) -> &str { unsafe {
    let mut t = [MaybeUninit::<usize>::uninit(); 2]; let p = t.as_mut_ptr() as *mut c_void;
    str_new(p); assert_eq!(str_len(p), 0); let _ = str_ptr(p);
    str_ref(p, s.c()); std::str::from_utf8(std::slice::from_raw_parts(str_ptr(p), str_len(p))).unwrap() } }
pub fn cpp_str_from(b: &[u8]) -> Option<&str> { unsafe {
    let mut t = [MaybeUninit::<usize>::uninit(); 2]; let p = t.as_mut_ptr() as *mut c_void;
    str_from(p, b.as_ptr(), b.len()).then(|| std::str::from_utf8(std::slice::from_raw_parts(str_ptr(p), str_len(p))).unwrap()) } }
fn slice_in<T>(s: &mut [T]) -> p::RustSlice { unsafe { let mut t = MaybeUninit::<p::RustSlice>::uninit(); slice_new(t.as_mut_ptr() as _, s.as_mut_ptr() as _, s.len()); t.assume_init() } }
fn slice_in_const<T>(s: &[T]) -> p::RustSlice { unsafe { let mut t = MaybeUninit::<p::RustSlice>::uninit(); slice_new(t.as_mut_ptr() as _, s.as_ptr() as _, s.len()); t.assume_init() } }
unsafe fn slice_out<'a, T>(s: p::RustSlice) -> &'a mut [T] { let q = &s as *const _ as *const c_void; std::slice::from_raw_parts_mut(slice_ptr(q) as *mut T, slice_len(q)) }
unsafe fn slice_out_const<'a, T>(s: p::RustSlice) -> &'a [T] { let q = &s as *const _ as *const c_void; std::slice::from_raw_parts(slice_ptr(q) as *const T, slice_len(q)) }
fn str_in(s: &str) -> p::RustStr { unsafe { let mut t = MaybeUninit::<p::RustStr>::uninit(); assert!(str_from(t.as_mut_ptr() as _, s.as_ptr(), s.len())); t.assume_init() } }
unsafe fn str_out<'a>(s: p::RustStr) -> &'a str { let q = &s as *const _ as *const c_void; std::str::from_utf8(std::slice::from_raw_parts(str_ptr(q), str_len(q))).unwrap() }

// ---- rust::Vec -------------------------------------------------------------
pub trait CppElem: Sized {
    unsafe fn new(t: *mut c_void); unsafe fn drop(t: *mut c_void); unsafe fn len(t: *const c_void) -> usize; unsafe fn cap(t: *const c_void) -> usize;
    unsafe fn data(t: *const c_void) -> *const c_void; unsafe fn reserve(t: *mut c_void, n: usize); unsafe fn set_len(t: *mut c_void, n: usize); unsafe fn truncate(t: *mut c_void, n: usize);
}
macro_rules! elem { ($t:ty, $s:literal) => {
    impl CppElem for $t {
        unsafe fn new(t: *mut c_void) { extern "C" { #[link_name = concat!("cxxbridge1$rust_vec$", $s, "$new")] fn f(t: *mut c_void); } f(t) }
        unsafe fn drop(t: *mut c_void) { extern "C" { #[link_name = concat!("cxxbridge1$rust_vec$", $s, "$drop")] fn f(t: *mut c_void); } f(t) }
        unsafe fn len(t: *const c_void) -> usize { extern "C" { #[link_name = concat!("cxxbridge1$rust_vec$", $s, "$len")] fn f(t: *const c_void) -> usize; } f(t) }
        unsafe fn cap(t: *const c_void) -> usize { extern "C" { #[link_name = concat!("cxxbridge1$rust_vec$", $s, "$capacity")] fn f(t: *const c_void) -> usize; } f(t) }
        unsafe fn data(t: *const c_void) -> *const c_void { extern "C" { #[link_name = concat!("cxxbridge1$rust_vec$", $s, "$data")] fn f(t: *const c_void) -> *const c_void; } f(t) }
        unsafe fn reserve(t: *mut c_void, n: usize) { extern "C" { #[link_name = concat!("cxxbridge1$rust_vec$", $s, "$reserve_total")] fn f(t: *mut c_void, n: usize); } f(t, n) }
        unsafe fn set_len(t: *mut c_void, n: usize) { extern "C" { #[link_name = concat!("cxxbridge1$rust_vec$", $s, "$set_len")] fn f(t: *mut c_void, n: usize); } f(t, n) }
        unsafe fn truncate(t: *mut c_void, n: usize) { extern "C" { #[link_name = concat!("cxxbridge1$rust_vec$", $s, "$truncate")] fn f(t: *mut c_void, n: usize); } f(t, n) }
    } } }
elem!(u8, "u8"); elem!(bool, "bool"); elem!(i64, "i64"); elem!(f32, "f32"); elem!(String, "string"); elem!(&'static str, "str"); elem!(S, "S");
pub struct CppVec<T: CppElem>([MaybeUninit<usize>; 3], std::marker::PhantomData<T>);
impl<T: CppElem> CppVec<T> {
    fn m(&mut self) -> *mut c_void { self.0.as_mut_ptr() as _ }
    fn c(&self) -> *const c_void { self.0.as_ptr() as _ }
    pub fn new() -> Self { let mut v = ManuallyDrop::new(CppVec([MaybeUninit::uninit(); 3], std::marker::PhantomData)); unsafe { T::new(v.m()) } ManuallyDrop::into_inner(v) }
    pub fn len(&self) -> usize { unsafe { T::len(self.c()) } }
    pub fn capacity(&self) -> usize { unsafe { T::cap(self.c()) } }
    pub fn reserve(&mut self, n: usize) { unsafe { T::reserve(self.m(), n) } }
    pub fn truncate(&mut self, n: usize) { unsafe { T::truncate(self.m(), n) } }
    // emplace_back: reserve, construct behind the end, set the length
    pub fn push(&mut self, x: T) { unsafe { let n = self.len(); T::reserve(self.m(), n + 1); assert!(self.capacity() > n); (T::data(self.c()) as *mut T).add(n).write(x); T::set_len(self.m(), n + 1) } }
    pub fn set(&mut self, i: usize, x: T) { unsafe { *(T::data(self.c()) as *mut T).add(i) = x } }
    pub fn all(&self) -> &[T] { unsafe { std::slice::from_raw_parts(T::data(self.c()) as *const T, self.len()) } }
    pub fn copy(&self) -> Self where T: Clone { let mut v = Self::new(); v.reserve(self.len()); for x in self.all() { v.push(x.clone()) } v }
    pub fn into_rust(self) -> Vec<T> { unsafe { ptr::read(&ManuallyDrop::new(self).0 as *const _ as *const Vec<T>) } }
}
impl<T: CppElem> Drop for CppVec<T> { fn drop(&mut self) { unsafe { T::drop(self.m()) } } }

// ---- errors ----------------------------------------------------------------
fn cpp_new(n: usize) -> *mut u8 { unsafe { let q = alloc(Layout::from_size_align(n + 16, 16).unwrap()); (q as *mut usize).write(n); q.add(16) } }
unsafe fn cpp_delete(p: *mut u8) { let q = p.sub(16); dealloc(q, Layout::from_size_align((q as *mut usize).read() + 16, 16).unwrap()) }
#[no_mangle] extern "C" fn unused() {}
#[export_name = "cxxbridge1$error"] unsafe extern "C" fn error(p: *const u8, n: usize) -> NonNull<u8> { let c = cpp_new(n); ptr::copy_nonoverlapping(p, c, n); NonNull::new_unchecked(c) }
/// How C++ reads the result of a fallible Rust function.
unsafe fn outcome(r: p::Result) -> Result<(), String> {
    let [a, b]: [MaybeUninit<usize>; 2] = std::mem::transmute(r);
    let q = std::mem::transmute::<_, *mut u8>(a);
    if q.is_null() { return Ok(()) }
    let n = b.assume_init(); let t = std::slice::from_raw_parts(q, n).to_vec(); cpp_delete(q);
    assert_eq!(t.last(), Some(&0)); Err(String::from_utf8(t[..n - 1].to_vec()).unwrap())
}
fn fine() -> p::Result { unsafe { std::mem::transmute::<[*const u8; 2], _>([ptr::null(); 2]) } }
fn thrown(t: &str) -> p::Result { unsafe { let n = t.len(); let q = Box::into_raw(t.to_owned().into_boxed_str()) as *mut u8; std::mem::transmute::<(*mut u8, usize), _>((q, n)) } }

// ---- opaque C++ type -------------------------------------------------------
pub struct CM { pub n: u64, pub buf: Cursor<Vec<u8>>, pub shared: bool }
impl CM { fn new(n: u64) -> Self { live(1); CM { n, buf: Cursor::new(vec![]), shared: false } } }
impl Drop for CM { fn drop(&mut self) { live(-1) } }
pub fn cm_ref<'a>(c: Pin<&'a mut C>) -> &'a mut CM { unsafe { &mut *(c.get_unchecked_mut() as *mut C as *mut CM) } }
unsafe fn cm_c<'a>(c: *const C) -> &'a CM { &*(c as *const CM) }

macro_rules! unique { ($seg:literal, $t:ty) => { const _: () = {
    #[export_name = concat!("cxxbridge1$unique_ptr$", $seg, "$null")] unsafe extern "C" fn null(t: *mut *mut $t) { t.write(ptr::null_mut()) }
    #[export_name = concat!("cxxbridge1$unique_ptr$", $seg, "$raw")] unsafe extern "C" fn raw(t: *mut *mut $t, r: *mut $t) { t.write(r) }
    #[export_name = concat!("cxxbridge1$unique_ptr$", $seg, "$get")] unsafe extern "C" fn get(t: *const *mut $t) -> *mut $t { t.read() }
    #[export_name = concat!("cxxbridge1$unique_ptr$", $seg, "$release")] unsafe extern "C" fn release(t: *mut *mut $t) -> *mut $t { t.replace(ptr::null_mut()) }
    #[export_name = concat!("cxxbridge1$unique_ptr$", $seg, "$drop")] unsafe extern "C" fn drop(t: *mut *mut $t) { let q = t.read(); if !q.is_null() { std::mem::drop(Box::from_raw(q)) } }
}; } }
unique!("C", CM); unique!("S", S); unique!("std$string", Str); unique!("std$vector$u8", Vec<u8>); unique!("std$vector$f64", Vec<f64>); unique!("std$vector$u64", Vec<u64>); unique!("std$vector$S", Vec<S>); unique!("std$vector$C", Vec<CM>);
#[export_name = "cxxbridge1$unique_ptr$S$uninit"] unsafe extern "C" fn s_uninit(t: *mut *mut S) -> *mut S { let q = Box::into_raw(Box::<S>::new_uninit()) as *mut S; t.write(q); q }

// std::shared_ptr: the object, the counts. (Object, control block) as C++ has them.
struct Ctl { strong: usize, weak: usize, obj: *mut c_void, del: unsafe fn(*mut c_void) }
type Sp = [*mut c_void; 2];
unsafe fn del<T>(p: *mut c_void) { drop(Box::from_raw(p as *mut T)) }
unsafe fn sp_new<T>(q: *mut T) -> Sp { [q as _, Box::into_raw(Box::new(Ctl { strong: 1, weak: 1, obj: q as _, del: del::<T> })) as _] }
unsafe fn unweak(c: *mut Ctl) { (*c).weak -= 1; if (*c).weak == 0 { drop(Box::from_raw(c)) } }
unsafe extern "C" fn sp_null(t: *mut Sp) { t.write([ptr::null_mut(); 2]) }
unsafe extern "C" fn sp_clone(t: *const Sp, n: *mut Sp) { let s = *t; if !s[1].is_null() { (*(s[1] as *mut Ctl)).strong += 1 } n.write(s) }
unsafe extern "C" fn sp_get(t: *const Sp) -> *mut c_void { (*t)[0] }
unsafe extern "C" fn sp_drop(t: *mut Sp) { let c = (*t)[1] as *mut Ctl; if c.is_null() { return } (*c).strong -= 1; if (*c).strong == 0 { let (o, d) = ((*c).obj, (*c).del); d(o); unweak(c) } }
unsafe extern "C" fn wp_clone(t: *const Sp, n: *mut Sp) { let s = *t; if !s[1].is_null() { (*(s[1] as *mut Ctl)).weak += 1 } n.write(s) }
unsafe extern "C" fn wp_up(t: *const Sp, n: *mut Sp) { let s = *t; if s[1].is_null() || (*(s[1] as *mut Ctl)).strong == 0 { sp_null(n) } else { sp_clone(t, n) } }
unsafe extern "C" fn wp_drop(t: *mut Sp) { let c = (*t)[1] as *mut Ctl; if !c.is_null() { unweak(c) } }
macro_rules! shared { ($pre:literal, $seg:literal) => { const _: () = {
    #[export_name = concat!("cxxbridge1$", $pre, "shared_ptr$", $seg, "$null")] unsafe extern "C" fn a(t: *mut Sp) { sp_null(t) }
    #[export_name = concat!("cxxbridge1$", $pre, "shared_ptr$", $seg, "$clone")] unsafe extern "C" fn b(t: *const Sp, n: *mut Sp) { sp_clone(t, n) }
    #[export_name = concat!("cxxbridge1$", $pre, "shared_ptr$", $seg, "$get")] unsafe extern "C" fn c(t: *const Sp) -> *mut c_void { sp_get(t) }
    #[export_name = concat!("cxxbridge1$", $pre, "shared_ptr$", $seg, "$drop")] unsafe extern "C" fn d(t: *mut Sp) { sp_drop(t) }
    #[export_name = concat!("cxxbridge1$", $pre, "weak_ptr$", $seg, "$null")] unsafe extern "C" fn e(t: *mut Sp) { sp_null(t) }
    #[export_name = concat!("cxxbridge1$", $pre, "weak_ptr$", $seg, "$clone")] unsafe extern "C" fn f(t: *const Sp, n: *mut Sp) { wp_clone(t, n) }
    #[export_name = concat!("cxxbridge1$", $pre, "weak_ptr$", $seg, "$downgrade")] unsafe extern "C" fn g(t: *const Sp, n: *mut Sp) { wp_clone(t, n) }
    #[export_name = concat!("cxxbridge1$", $pre, "weak_ptr$", $seg, "$upgrade")] unsafe extern "C" fn h(t: *const Sp, n: *mut Sp) { wp_up(t, n) }
    #[export_name = concat!("cxxbridge1$", $pre, "weak_ptr$", $seg, "$drop")] unsafe extern "C" fn i(t: *mut Sp) { wp_drop(t) }
}; } }
macro_rules! uninit { ($sym:literal, $t:ty) => { const _: () = { #[export_name = $sym] unsafe extern "C" fn j(t: *mut Sp) -> *mut c_void { let q = Box::into_raw(Box::<$t>::new_uninit()) as *mut $t; t.write(sp_new(q)); q as _ } }; } }
shared!("", "C"); shared!("", "S"); shared!("std$", "u8"); shared!("std$", "f64"); uninit!("cxxbridge1$shared_ptr$S$uninit", S); uninit!("cxxbridge1$std$shared_ptr$u8$uninit", u8);

// ---- std::string -----------------------------------------------------------
pub struct Str(Vec<u8>);
impl Str { fn nul(mut v: Vec<u8>) -> Self { live(1); v.push(0); Str(v) } }
impl Drop for Str { fn drop(&mut self) { live(-1) } }
#[export_name = "cxxbridge1$cxx_string$init"] unsafe extern "C" fn cs_init(t: *mut Str, p: *const u8, n: usize) { t.write(Str::nul(std::slice::from_raw_parts(p, n).to_vec())) }
#[export_name = "cxxbridge1$cxx_string$destroy"] unsafe extern "C" fn cs_destroy(t: *mut Str) { ptr::drop_in_place(t) }
#[export_name = "cxxbridge1$cxx_string$data"] unsafe extern "C" fn cs_data(t: *const Str) -> *const u8 { (*t).0.as_ptr() }
#[export_name = "cxxbridge1$cxx_string$length"] unsafe extern "C" fn cs_len(t: *const Str) -> usize { (*t).0.len() - 1 }
#[export_name = "cxxbridge1$cxx_string$clear"] unsafe extern "C" fn cs_clear(t: *mut Str) { (*t).0.clear(); (*t).0.push(0) }
#[export_name = "cxxbridge1$cxx_string$reserve_total"] unsafe extern "C" fn cs_reserve(t: *mut Str, n: usize) { let l = (*t).0.len(); (*t).0.reserve(n.saturating_sub(l) + 1) }
#[export_name = "cxxbridge1$cxx_string$push"] unsafe extern "C" fn cs_push(t: *mut Str, p: *const u8, n: usize) { (*t).0.pop(); (*t).0.extend_from_slice(std::slice::from_raw_parts(p, n)); (*t).0.push(0) }

// ---- std::vector -----------------------------------------------------------
macro_rules! vector { ($seg:literal, $t:ty) => { const _: () = {
    #[export_name = concat!("cxxbridge1$std$vector$", $seg, "$new")] unsafe extern "C" fn new() -> *mut Vec<$t> { Box::into_raw(Box::new(Vec::new())) }
    #[export_name = concat!("cxxbridge1$std$vector$", $seg, "$size")] unsafe extern "C" fn size(v: *const Vec<$t>) -> usize { (*v).len() }
    #[export_name = concat!("cxxbridge1$std$vector$", $seg, "$get_unchecked")] unsafe extern "C" fn get(v: *mut Vec<$t>, i: usize) -> *mut $t { assert!(i <= (*v).len()); ((*v).as_ptr() as *mut $t).add(i) }
    #[export_name = concat!("cxxbridge1$std$vector$", $seg, "$push_back")] unsafe extern "C" fn push(v: *mut Vec<$t>, x: *mut $t) { (*v).push(x.read()) }
    #[export_name = concat!("cxxbridge1$std$vector$", $seg, "$pop_back")] unsafe extern "C" fn pop(v: *mut Vec<$t>, o: *mut $t) { o.write((*v).pop().unwrap()) }
}; } }
vector!("u8", u8); vector!("f64", f64); vector!("u64", u64); vector!("S", S); vector!("C", CM);

// ---- Box -------------------------------------------------------------------
extern "C" {
    #[link_name = "cxxbridge1$box$S$alloc"] fn box_alloc() -> *mut S;
    #[link_name = "cxxbridge1$box$S$dealloc"] fn box_dealloc(p: *mut S);
    #[link_name = "cxxbridge1$box$S$drop"] fn box_drop(p: *mut *mut S);
    #[link_name = "cxxbridge1$box$R$drop"] fn box_drop_r(p: *mut *mut R);
    #[link_name = "cxxbridge1$R$operator$sizeof"] fn r_size() -> usize;
    #[link_name = "cxxbridge1$R$operator$alignof"] fn r_align() -> usize;
}
pub fn cpp_box_s(s: S) -> CppBox { unsafe { let q = box_alloc(); q.write(s); CppBox(q) } }
pub fn cpp_box_abandoned() { unsafe { box_dealloc(box_alloc()); let mut q = Box::into_raw(Box::new(R::new(1))); box_drop_r(&mut q); assert_eq!((r_size(), r_align()), (std::mem::size_of::<R>(), std::mem::align_of::<R>())) } }
pub struct CppBox(*mut S);
impl Drop for CppBox { fn drop(&mut self) { unsafe { box_drop(&mut self.0) } } }

// ---- calling Rust, as the generated C++ does -------------------------------
extern "C" {
    #[link_name = "cxxbridge1$r_by"] fn r_by(s: *mut S, r: *mut R, e: En, p: *mut P, o: *mut S);
    #[link_name = "cxxbridge1$r_box"] fn r_box(w: *mut W) -> *mut R;
    #[link_name = "cxxbridge1$r_vec"] fn r_vec(v: *mut c_void, w: *mut c_void, s: *mut c_void, o: *mut c_void);
    #[link_name = "cxxbridge1$r_str"] fn r_str(x: p::RustStr, y: *mut String) -> p::RustStr;
    #[link_name = "cxxbridge1$r_vmut"] fn r_vmut(x: *mut c_void, y: *mut c_void) -> usize;
    #[link_name = "cxxbridge1$r_sl"] fn r_sl(x: p::RustSlice, y: p::RustSlice) -> p::RustSlice;
    #[link_name = "cxxbridge1$r_res"] fn r_res(x: p::RustStr, o: *mut c_void) -> p::Result;
    #[link_name = "cxxbridge1$r_unit"] fn r_unit(x: p::RustSlice) -> p::Result;
    #[link_name = "cxxbridge1$r_ref"] fn r_ref(x: *const c_void, o: *mut c_void) -> p::Result;
    #[link_name = "cxxbridge1$r_uniq"] fn r_uniq(x: *mut c_void, y: *mut c_void, z: *mut c_void) -> *mut C;
    #[link_name = "cxxbridge1$r_opt"] fn r_opt(e: bool, o: *mut W) -> p::Result;
    #[link_name = "cxxbridge1$r_l"] fn r_l(l: *mut c_void) -> p::RustSlice;
    #[link_name = "cxxbridge1$R$m"] fn r_m(r: *mut R, c: *mut C) -> *mut u8;
    #[link_name = "cxxbridge1$R$k"] fn r_k(r: *const R, s: *const S, o: *mut c_void);
    #[link_name = "cxxbridge1$vs"] fn r_vs(v: *mut c_void) -> p::RustStr;
}
fn own<T>(x: T) -> ManuallyDrop<T> { ManuallyDrop::new(x) }
fn at<T>(x: &mut ManuallyDrop<T>) -> *mut c_void { x as *mut _ as _ }
pub fn call_r_by(s: S, r: Box<R>, e: En, p: P) -> S { unsafe { let mut s = own(s); let mut o = MaybeUninit::<S>::uninit(); r_by(&mut *s, Box::into_raw(r), e, &mut { p }, o.as_mut_ptr()); o.assume_init() } }
pub fn call_r_box(w: W) -> Box<R> { unsafe { let mut w = own(w); Box::from_raw(r_box(&mut *w)) } }
pub fn call_r_vec(v: Vec<String>, w: Vec<u32>, s: Vec<S>) -> Vec<String> { unsafe { let (mut v, mut w, mut s) = (own(v), own(w), own(s)); let mut o = MaybeUninit::<Vec<String>>::uninit(); r_vec(at(&mut v), at(&mut w), at(&mut s), o.as_mut_ptr() as _); o.assume_init() } }
pub fn call_r_str<'a>(x: &'a str, y: &mut String) -> &'a str { unsafe { str_out(r_str(str_in(x), y)) } }
pub fn call_r_vmut(x: &mut Vec<String>, y: &mut Vec<S>) -> usize { unsafe { r_vmut(x as *mut _ as _, y as *mut _ as _) } }
pub fn call_r_sl<'a>(x: &'a mut [u16], y: &[String]) -> &'a mut [u16] { unsafe { slice_out(r_sl(slice_in(x), slice_in_const(y))) } }
pub fn call_r_res(x: &str) -> Result<Vec<String>, String> { unsafe { let mut o = MaybeUninit::<Vec<String>>::uninit(); outcome(r_res(str_in(x), o.as_mut_ptr() as _)).map(|_| o.assume_init()) } }
pub fn call_r_unit(x: &mut [u16]) -> Result<(), String> { unsafe { outcome(r_unit(slice_in(x))) } }
pub fn call_r_ref(x: &Vec<S>) -> Result<&S, String> { unsafe { let mut o = MaybeUninit::<*const S>::uninit(); outcome(r_ref(x as *const _ as _, o.as_mut_ptr() as _)).map(|_| &*o.assume_init()) } }
pub fn call_r_uniq(x: UniquePtr<C>, y: SharedPtr<C>, z: WeakPtr<C>) -> UniquePtr<C> { unsafe { let (mut x, mut y, mut z) = (own(x), own(y), own(z)); let raw: *mut c_void = std::mem::transmute_copy(&x); UniquePtr::from_raw(r_uniq(raw, at(&mut y), at(&mut z))) } }
pub fn call_r_opt(e: bool) -> Result<W, String> { unsafe { let mut o = MaybeUninit::<W>::uninit(); outcome(r_opt(e, o.as_mut_ptr())).map(|_| o.assume_init()) } }
pub fn call_r_l<'a>(s: &'a str, t: &'a [u16], r: &'a mut [u32]) -> &'a mut [u32] { unsafe { let mut l = own((str_in(s), slice_in_const(t), slice_in(r))); let mut a = LMem(str_in(s), slice_in_const(t), slice_in(r)); slice_out(r_l(&mut a as *mut _ as _)) } }
#[repr(C)] struct LMem(p::RustStr, p::RustSlice, p::RustSlice);
pub fn call_m<'a>(r: &'a mut R, c: Pin<&mut C>) -> &'a mut u8 { unsafe { &mut *r_m(r, c.get_unchecked_mut()) } }
pub fn call_k(r: &R, s: &S) -> String { unsafe { let mut o = MaybeUninit::<String>::uninit(); r_k(r, s, o.as_mut_ptr() as _); o.assume_init() } }
pub fn call_vs<'a>(v: Vec<&'a str>) -> &'a str { unsafe { let mut v = own(v); str_out(r_vs(at(&mut v))) } }

// ---- functions called by Rust ----------------------------------------------
#[export_name = "cxxbridge1$c_by"] unsafe extern "C" fn c_by(s: *mut S, r: *mut R, e: En, p: *mut P, o: *mut S) { o.write(call_r_by(s.read(), Box::from_raw(r), e, *p)) }
#[export_name = "cxxbridge1$c_vec"] unsafe extern "C" fn c_vec(v: *mut Vec<String>, w: *mut Vec<u32>, o: *mut Vec<String>) { let mut v = v.read(); v.push(w.read().len().to_string()); o.write(v) }
#[export_name = "cxxbridge1$c_res"] unsafe extern "C" fn c_res(x: p::RustStr, y: *mut String, o: *mut Vec<String>) -> p::Result { let y = y.read(); if y.len() % 2 == 1 { return thrown(str_out(x)) } o.write(vec![y]); fine() }
#[export_name = "cxxbridge1$c_unit"] unsafe extern "C" fn c_unit(x: *mut Vec<S>) -> p::Result { if (*x).len() == 2 { return thrown("two!!") } (*x).push(S::default()); fine() }
#[export_name = "cxxbridge1$c_w"] unsafe extern "C" fn c_w(w: *mut W, o: *mut W) -> p::Result { let w = w.read(); if w.b.1 % 2 == 0 { return thrown("w") } o.write(w); fine() }
extern "C" {
    #[link_name = "cxxbridge1$c_fn$f$1"] fn f_1(s: *mut S, t: p::RustStr, o: *mut S, x: *const c_void);
    #[link_name = "cxxbridge1$c_fn$g$1"] fn g_1(n: u8, x: *const c_void);
    #[link_name = "cxxbridge1$c_fn$h$1"] fn h_1(s: p::RustSlice, b: *mut R, o: *mut String, x: *const c_void);
}
#[export_name = "cxxbridge1$c_fn$f$0"] unsafe extern "C" fn f_0(s: *mut S, t: p::RustStr, o: *mut S, x: *const c_void) { f_1(s, t, o, x) }
#[export_name = "cxxbridge1$c_fn$g$0"] unsafe extern "C" fn g_0(n: u8, x: *const c_void) { g_1(n, x) }
#[export_name = "cxxbridge1$c_fn$h$0"] unsafe extern "C" fn h_0(s: p::RustSlice, b: *mut R, o: *mut String, x: *const c_void) { h_1(s, b, o, x) }
#[export_name = "cxxbridge1$c_fn"] unsafe extern "C" fn c_fn(f: p::FatFunction, g: p::FatFunction, h: p::FatFunction, s: *mut S, o: *mut S) {
    let ft: unsafe extern "C" fn(*mut S, p::RustStr, *mut S, *const c_void) = std::mem::transmute(f.trampoline);
    let gt: unsafe extern "C" fn(u8, *const c_void) = std::mem::transmute(g.trampoline);
    let ht: unsafe extern "C" fn(p::RustSlice, *mut R, *mut String, *const c_void) = std::mem::transmute(h.trampoline);
    let mut s = s.read();
    for _ in 0..2 { let mut a = own(s); let mut out = MaybeUninit::<S>::uninit(); ft(&mut *a, str_in("añ"), out.as_mut_ptr(), f.ptr); s = out.assume_init(); gt(3, g.ptr); }
    let mut x = [1u16, 2]; let mut t = MaybeUninit::<String>::uninit(); ht(slice_in(&mut x), Box::into_raw(Box::new(R::new(8))), t.as_mut_ptr(), h.ptr);
    assert_eq!((x, &t.assume_init()[..]), ([2, 3], "8"));
    o.write(s)
}
#[export_name = "cxxbridge1$c_sl"] unsafe extern "C" fn c_sl(x: p::RustSlice, y: *const Str) -> p::RustSlice { let x = slice_out::<u16>(x); for v in x.iter_mut() { *v += (*y).0.len() as u16 } slice_in(if x.is_empty() { x } else { &mut x[1..] }) }
#[export_name = "cxxbridge1$c_ss"] unsafe extern "C" fn c_ss(x: p::RustSlice, o: *mut String) { o.write(slice_out_const::<String>(x).concat()) }
#[export_name = "cxxbridge1$c_new"] unsafe extern "C" fn c_new(n: u64) -> *mut CM { Box::into_raw(Box::new(CM::new(n))) }
#[export_name = "cxxbridge1$c_str"] unsafe extern "C" fn c_str(n: usize) -> *mut Str { Box::into_raw(Box::new(Str::nul(vec![b'q'; n]))) }
#[export_name = "cxxbridge1$c_vc"] unsafe extern "C" fn c_vc(n: u64) -> *mut Vec<CM> { Box::into_raw(Box::new((0..n).map(CM::new).collect())) }
#[export_name = "cxxbridge1$C$get"] unsafe extern "C" fn c_get(c: *const CM) -> u64 { (*c).n }
#[export_name = "cxxbridge1$C$cm"] unsafe extern "C" fn c_cm(c: *mut CM, v: *mut Vec<S>, o: *mut *mut u64) -> p::Result { let v = v.read(); if v.len() % 2 == 1 { return thrown("odd") } o.write(&mut (*c).n); fine() }
#[export_name = "cxxbridge1$C$cs"] unsafe extern "C" fn c_cs(c: *const CM, o: *mut Sp) { let q = Box::into_raw(Box::new(CM::new((*c).n))); o.write(sp_new(q)) }
