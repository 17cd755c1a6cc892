use ffi0::*;
use cxx::memory::UniquePtrTarget as UT;
use std::hash::{Hash, Hasher};
// <std>
use std::io::{self, Read, Seek, SeekFrom, Write, IoSlice};
// </std>
#[repr(C)] #[derive(Clone, Debug, PartialEq)] pub struct Tri { a: u16, b: u8 }
unsafe impl cxx::ExternType for Tri { type Id = cxx::type_id!("Tri"); type Kind = cxx::kind::Trivial; }
fn h<T: Hash>(t: &T) -> u64 { let mut s = std::collections::hash_map::DefaultHasher::new(); t.hash(&mut s); s.finish() }
trait El { fn s(&self) -> String; }
impl El for Opq { fn s(&self) -> String { self.id().to_string() } }
impl El for SP { fn s(&self) -> String { format!("{}/{}", self.a, self.s) } }
impl El for Tri { fn s(&self) -> String { format!("{}/{}", self.a, self.b) } }
impl El for CxxString { fn s(&self) -> String { format!("{:?}", self.as_bytes()) } }
impl El for CxxVector<u16> { fn s(&self) -> String { format!("{:?}", self.as_slice()) } }
struct Fns<T: UT> { name: &'static str, ty: &'static str, mk: fn(bool) -> UniquePtr<T>, adr: fn(&UniquePtr<T>) -> usize, echo: fn(UniquePtr<T>) -> UniquePtr<T>, sink: fn(UniquePtr<T>), reset: fn(&mut UniquePtr<T>), alter: fn(Pin<&mut T>) }
fn state<T: UT + El>(f: &Fns<T>, m: &Option<(usize, String)>, p: &mut UniquePtr<T>) {
    let sl = |x: &str| format!("{}.{}", f.name, x);
    let addr = m.as_ref().map_or(0, |x| x.0);
    st_eq(&sl("is_null"), &m.is_none(), &p.is_null()); st_eq(&sl("cxx_addr"), &addr, &(f.adr)(p)); st_eq(&sl("as_ptr"), &addr, &(p.as_ptr() as *const u8 as usize)); st_eq(&sl("as_mut_ptr"), &addr, &(p.as_mut_ptr() as *mut u8 as usize));
    st_eq(&sl("as_ref"), &m.as_ref().map(|x| x.1.clone()), &p.as_ref().map(El::s)); st_eq(&sl("as_ref.addr"), &m.as_ref().map(|x| x.0), &p.as_ref().map(|x| x as *const T as *const u8 as usize));
    st_eq(&sl("as_mut.addr"), &m.as_ref().map(|x| x.0), &p.as_mut().map(|x| &*x as *const T as *const u8 as usize));
    match m {
        Some((a, s)) => { st_eq(&sl("deref"), s, &(**p).s()); st_eq(&sl("pin_mut"), a, &(&*p.pin_mut() as *const T as *const u8 as usize)) }
        None => if below(4) == 0 {
            let e = catch(|| { (**p).s(); }); st_eq(&sl("deref.null"), &Err::<(), _>(format!("called deref on a null UniquePtr<{}>", f.ty)), &e);
            let e = catch(|| { p.pin_mut(); }); st_eq(&sl("pin_mut.null"), &Err::<(), _>(format!("called pin_mut on a null UniquePtr<{}>", f.ty)), &e);
        }
    }
}
fn model<T: UT + El>(p: &UniquePtr<T>) -> Option<(usize, String)> { p.as_ref().map(|x| (x as *const T as *const u8 as usize, x.s())) }
fn run<T: UT + El>(f: Fns<T>) {
    let sl = |x: &str| format!("{}.{}", f.name, x);
    const K: usize = 3;
    let mut p: Vec<UniquePtr<T>> = (0..K).map(|_| UniquePtr::null()).collect(); let mut m: Vec<Option<(usize, String)>> = vec![None; K];
    for _ in 0..16 {
        let i = below(K as u64) as usize; let j = below(K as u64) as usize;
        match below(11) {
            0 | 1 | 2 => { let n = coin(4); p[i] = (f.mk)(n); m[i] = model(&p[i]); st_eq(&sl("made"), &n, &m[i].is_none()) }
            3 => { p.swap(i, j); m.swap(i, j) }
            4 => { p[i] = UniquePtr::null(); m[i] = None }
            5 => { let t = std::mem::replace(&mut p[i], UniquePtr::null()); let t = (f.echo)(t); if i != j { p[j] = t; m[j] = m[i].take() } else { p[i] = t } }
            6 => { let t = std::mem::replace(&mut p[i], UniquePtr::null()); (f.sink)(t); m[i] = None }
            7 => { let t = std::mem::replace(&mut p[i], UniquePtr::null()); let r = t.into_raw(); st_eq(&sl("into_raw"), &m[i].as_ref().map_or(0, |x| x.0), &(r as *mut u8 as usize)); p[i] = unsafe { UniquePtr::from_raw(r) } }
            8 => { (f.reset)(&mut p[i]); m[i] = None }
            9 => { if let Some(x) = p[i].as_mut() { (f.alter)(x); m[i] = model(&p[i]) } }
            _ => { let mut b = Box::new(std::mem::replace(&mut p[i], UniquePtr::null())); state(&f, &m[i], &mut b); p[i] = *b }
        }
        state(&f, &m[i], &mut p[i]); state(&f, &m[j], &mut p[j]);
    }
    // dropped while unwinding
    let t = std::mem::replace(&mut p[0], UniquePtr::null()); let r: Result<(), String> = catch(move || { let _t = t; panic!("p") }); st_ok(&sl("unwind"), r.is_err());
}
#[no_mangle] extern "C" fn t_o() { run(Fns::<Opq> { name: "o", ty: "Opq", mk: |n| mk_opq(n, rnd()), adr: adr_o, echo: echo_o, sink: sink_o, reset: reset_o, alter: |p| p.set(rnd()) }) }
#[no_mangle] extern "C" fn t_sp() { run(Fns::<SP> { name: "sp", ty: "SP", mk: |n| if n { mk_sp(true, 0, "") } else if coin(2) { mk_sp(false, rnd() as u32, &rand_text()) } else { UniquePtr::new(SP { a: rnd() as u32, s: rand_text() }) }, adr: adr_sp, echo: echo_sp, sink: sink_sp, reset: reset_sp, alter: |mut p| { p.s += "more text than before"; p.a ^= 1 } }) }
#[no_mangle] extern "C" fn t_t() { run(Fns::<Tri> { name: "t", ty: "Tri", mk: |n| if n { mk_tri(true, 0) } else if coin(2) { mk_tri(false, rnd() as u16) } else { UniquePtr::new(Tri { a: rnd() as u16, b: rnd() as u8 }) }, adr: adr_t, echo: echo_t, sink: sink_t, reset: reset_t, alter: |mut p| p.a = rnd() as u16 }) }
#[no_mangle] extern "C" fn t_s() { run(Fns::<CxxString> { name: "s", ty: "CxxString", mk: |n| mk_str(n, rand_text().as_bytes()), adr: adr_s, echo: echo_s, sink: sink_s, reset: reset_s, alter: |p| p.push_str(&rand_text()) }) }
#[no_mangle] extern "C" fn t_v() { run(Fns::<CxxVector<u16>> { name: "v", ty: "CxxVector<u16>", mk: |n| if n { mk_vec(true, 0) } else if coin(2) { mk_vec(false, rand_len()) } else { CxxVector::new() }, adr: adr_v, echo: echo_v, sink: sink_v, reset: reset_v, alter: |p| p.push(rnd() as u16) }) }
#[no_mangle] extern "C" fn t_misc() {
    let x = rnd() >> 8; let d = mk_derived(x); st_eq("derived", &(if x % 2 == 1 { x + 100 } else { x * 2 }), &d.dval()); if coin(2) { let r = d.into_raw(); drop(unsafe { UniquePtr::from_raw(r) }) }
    let r = mk_ren(x); st_eq("renamed", &x, &r.rid()); let n = UniquePtr::<Renamed>::null(); st_eq("renamed.null", &Err::<u64, _>("called deref on a null UniquePtr<Renamed>".to_string()), &catch(|| n.rid()));
    let mut v = mk_vs(rand_len()); for e in v.pin_mut() { e.push_str("x") } let mut o: Vec<UniquePtr<CxxVector<CxxString>>> = vec![v, mk_vs(2), UniquePtr::null()]; o.rotate_left(1);
    let mut w = mk_vsp(1 + rand_len() % 10); st_eq("vsp", &"element", &w.get(0).unwrap().s.as_str()); if let Some(mut e) = w.pin_mut().index_mut(0) { e.s.push('!') } st_eq("vsp.pop", &"element", &w.pin_mut().pop().unwrap().s.trim_end_matches('!'));
    let mut u: UniquePtr<SP> = UniquePtr::null(); st_eq("deref_mut.null", &Err::<(), _>("called deref_mut on a null UniquePtr<SP>".to_string()), &catch(|| { u.a = 1; })); u = UniquePtr::new(SP { a: 1, s: rand_text() }); u.a = 9; let p: *const SP = &*u; st_eq("deref_mut", &9u32, &u.a); std::mem::swap(&mut *u, &mut SP { a: 4, s: "x".into() }); st_eq("deref_mut.swap", &4u32, &u.a); st_eq("deref_mut.same", &p, &u.as_ptr());
    let q: Option<Box<UniquePtr<SP>>> = Some(Box::new(u)); st_eq("boxed", &"x".to_string(), &q.as_ref().unwrap().s); drop(q);
    st_eq("size", &std::mem::size_of::<*mut u8>(), &std::mem::size_of::<UniquePtr<Opq>>());
}
#[no_mangle] extern "C" fn t_cmp() {
    let mk = || match below(4) { 0 => None, _ => Some(SP { a: below(3) as u32, s: if coin(2) { "a".into() } else { rand_text() } }) };
    let (a, b) = (mk(), mk()); let b = if coin(4) { a.clone() } else { b };
    let up = |x: &Option<SP>| match x { None => UniquePtr::null(), Some(x) => UniquePtr::new(x.clone()) };
    let (x, y) = (up(&a), up(&b));
    st_eq("eq", &(a == b), &(x == y)); st_eq("ne", &(a != b), &(x != y)); st_eq("cmp", &a.cmp(&b), &x.cmp(&y)); st_eq("pcmp", &a.partial_cmp(&b), &x.partial_cmp(&y)); st_eq("lt", &(a < b), &(x < y)); st_eq("ge", &(a >= b), &(x >= y)); st_eq("hash", &h(&a), &h(&x)); if a == b { st_eq("hash.eq", &h(&x), &h(&y)) }
    st_eq("debug", &match &a { None => "nullptr".to_string(), Some(v) => format!("{:?}", v) }, &format!("{:?}", x)); st_eq("debug.alt", &match &a { None => "nullptr".to_string(), Some(v) => format!("{:#?}", v) }, &format!("{:#?}", x));
    let t = rand_text(); let s = mk_str(false, t.as_bytes()); st_eq("display", &t, &format!("{}", s)); st_eq("display.null", &"nullptr".to_string(), &format!("{}", UniquePtr::<CxxString>::null()));
}
// <std t_io t_dev>
// Read/Write/Seek forwarding against std::io::Cursor
extern "C" { fn f_read(f: *mut File, p: *mut u8, n: usize) -> usize; fn f_write(f: *mut File, p: *const u8, n: usize); fn f_pos(f: *const File) -> usize; fn f_seek(f: *mut File, p: usize); fn f_len(f: *const File) -> usize; }
thread_local! { static CALLS: RefCell<Vec<&'static str>> = RefCell::new(vec![]); } thread_local! { static ARM: std::cell::Cell<bool> = std::cell::Cell::new(false); }
fn call(s: &'static str) { CALLS.with(|c| c.borrow_mut().push(s)) }
fn ptr(f: &mut Pin<&mut File>) -> *mut File { unsafe { f.as_mut().get_unchecked_mut() as *mut File } }
impl Read for Pin<&mut File> { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { call("read"); if b.len() == 13 && ARM.with(|a| a.get()) { return Err(io::Error::new(io::ErrorKind::Other, "thirteen")) } Ok(unsafe { f_read(ptr(self), b.as_mut_ptr(), b.len()) }) } }
impl Write for Pin<&mut File> { fn write(&mut self, b: &[u8]) -> io::Result<usize> { call("write"); if b.len() == 13 && ARM.with(|a| a.get()) { return Err(io::Error::new(io::ErrorKind::Other, "thirteen")) } unsafe { f_write(ptr(self), b.as_ptr(), b.len()) } Ok(b.len()) } fn flush(&mut self) -> io::Result<()> { call("flush"); Ok(()) } }
impl Seek for Pin<&mut File> { fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { call("seek"); let n = match p { SeekFrom::Start(n) => n as i64, SeekFrom::End(n) => unsafe { f_len(ptr(self)) as i64 + n }, SeekFrom::Current(n) => unsafe { f_pos(ptr(self)) as i64 + n } }; if n < 0 { return Err(io::Error::new(io::ErrorKind::InvalidInput, "negative")) } unsafe { f_seek(ptr(self), n as usize) } Ok(n as u64) } }
#[no_mangle] extern "C" fn t_io() {
    let init: Vec<u8> = (0..rand_len()).map(|_| rnd() as u8).collect(); let mut f = mk_file(&init); let mut c = io::Cursor::new(init);
    let e = |r: io::Result<usize>| r.map_err(|e| (e.kind(), e.to_string())).map(|n| n as u64); let e0 = |r: io::Result<()>| r.map_err(|e| e.kind()); let e6 = |r: io::Result<u64>| r.map_err(|e| e.kind());
    for _ in 0..10 { if c.position() > c.get_ref().len() as u64 { let n = c.position() as usize; c.set_position(0); f.rewind().unwrap(); }
        match below(11) {
        0 => { let n = below(20) as usize; if n == 13 { let mut b = vec![0; 13]; ARM.with(|a| a.set(true)); st_eq("io.read.err", &Err::<u64, _>((io::ErrorKind::Other, "thirteen".to_string())), &e(f.read(&mut b))); ARM.with(|a| a.set(false)) } else { let (mut a, mut b) = (vec![0; n], vec![0; n]); st_eq("io.read", &e(c.read(&mut a)), &e(f.read(&mut b))); st_eq("io.read.bytes", &a, &b) } }
        1 => { let (mut a, mut b) = (vec![1], vec![1]); let r = c.read_to_end(&mut a).map(|x| x as u64); let g = f.read_to_end(&mut b).map(|x| x as u64); st_eq("io.read_to_end", &(e6(r), a), &(e6(g), b)) }
        2 => { let (mut a, mut b) = (String::from("x"), String::from("x")); let r = c.read_to_string(&mut a); let g = f.read_to_string(&mut b); st_eq("io.read_to_string", &(r.map_err(|e| e.kind()), a), &(g.map_err(|e| e.kind()), b)); f.seek(SeekFrom::Start(c.position())).unwrap(); }
        3 => { let n = below(9) as usize; let left = c.get_ref().len().saturating_sub(c.position() as usize); if n <= left { let (mut a, mut b) = (vec![0; n], vec![0; n]); st_eq("io.read_exact", &e0(c.read_exact(&mut a)), &e0(f.read_exact(&mut b))); st_eq("io.read_exact.bytes", &a, &b) } }
        4 => { let b: Vec<u8> = (0..below(12)).map(|_| rnd() as u8).collect(); st_eq("io.write", &e(c.write(&b)), &e(f.write(&b))) }
        5 => { let b: Vec<u8> = (0..below(12)).map(|_| rnd() as u8).collect(); st_eq("io.write_all", &e0(c.write_all(&b)), &e0(f.write_all(&b))) }
        6 => { let k = below(1000); st_eq("io.write_fmt", &e0(write!(c, "<{}>", k)), &e0(write!(f, "<{}>", k))) }
        7 => { let p = match below(3) { 0 => SeekFrom::Start(below(20)), 1 => SeekFrom::End(-(below(9) as i64)), _ => SeekFrom::Current(below(9) as i64 - 4) }; st_eq("io.seek", &e6(c.seek(p)), &e6(f.seek(p))) }
        8 => st_eq("io.stream_position", &e6(c.stream_position()), &e6(f.stream_position())),
        9 => { st_eq("io.rewind", &e0(c.rewind()), &e0(f.rewind())); }
        _ => { CALLS.with(|c| c.borrow_mut().clear()); st_eq("io.flush", &e0(c.flush()), &e0(f.flush())); CALLS.with(|c| st_eq("io.flush.forwarded", &vec!["flush"], &*c.borrow())); let x = below(5) as i64; if c.position() as i64 >= x { st_eq("io.seek_relative", &e0(c.seek_relative(-x)), &e0(f.seek_relative(-x))) }
            let bufs = [IoSlice::new(b"abc"), IoSlice::new(b"de")]; let n = f.write_vectored(&bufs).unwrap(); st_ok("io.write_vectored", n == 3 || n == 5); c.write_all(&b"abcde"[..n]).unwrap() }
        }
        st_eq("io.pos", &c.position(), &(unsafe { f_pos(&*f) } as u64)); st_eq("io.len", &c.get_ref().len(), &unsafe { f_len(&*f) });
        let p = c.position(); let mut all = vec![]; f.rewind().unwrap(); f.read_to_end(&mut all).unwrap(); f.seek(SeekFrom::Start(p)).unwrap(); st_eq("io.content", c.get_ref(), &all);
    }
    let mut n = UniquePtr::<File>::null(); st_ok("io.null", catch(|| { let _ = n.read(&mut [0]); }).is_err() );
}

// Every method of the forwarded traits arrives as itself, with its arguments, and its result comes back.
thread_local! { static TOLD: RefCell<Vec<String>> = RefCell::new(vec![]); static ANS: std::cell::Cell<u64> = std::cell::Cell::new(0); }
fn told(s: String) -> io::Result<u64> { TOLD.with(|t| t.borrow_mut().push(s)); match ANS.with(|a| a.get()) { u64::MAX => Err(io::Error::new(io::ErrorKind::Interrupted, "asked")), n => Ok(n) } }
fn fill(b: &mut [u8]) -> String { let s = format!("{:?}", b); for x in b { *x = x.wrapping_add(1) } s }
impl Read for Pin<&mut Dev> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { told(format!("read {}", fill(b))).map(|n| n as usize) }
    fn read_to_end(&mut self, b: &mut Vec<u8>) -> io::Result<usize> { let s = format!("read_to_end {}", fill(b)); b.push(3); told(s).map(|n| n as usize) }
    fn read_to_string(&mut self, b: &mut String) -> io::Result<usize> { let s = format!("read_to_string {:?}", b); b.push('!'); told(s).map(|n| n as usize) }
    fn read_exact(&mut self, b: &mut [u8]) -> io::Result<()> { told(format!("read_exact {}", fill(b))).map(drop) }
}
impl Write for Pin<&mut Dev> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { told(format!("write {:?}", b)).map(|n| n as usize) }
    fn write_vectored(&mut self, b: &[IoSlice<'_>]) -> io::Result<usize> { told(format!("write_vectored {:?}", b)).map(|n| n as usize) }
    fn flush(&mut self) -> io::Result<()> { told("flush".into()).map(drop) }
    fn write_all(&mut self, b: &[u8]) -> io::Result<()> { told(format!("write_all {:?}", b)).map(drop) }
    fn write_fmt(&mut self, a: std::fmt::Arguments<'_>) -> io::Result<()> { told(format!("write_fmt {}", a)).map(drop) }
}
impl Seek for Pin<&mut Dev> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { told(format!("seek {:?}", p)) }
    fn rewind(&mut self) -> io::Result<()> { told("rewind".into()).map(drop) }
    fn stream_position(&mut self) -> io::Result<u64> { told("stream_position".into()) }
    fn seek_relative(&mut self, n: i64) -> io::Result<()> { told(format!("seek_relative {}", n)).map(drop) }
}
fn dev_op(k: u64, n: u64, b: &mut Vec<u8>, d: &mut (impl Read + Write + Seek)) -> (String, String) {
    let u = |r: io::Result<usize>| format!("{:?}", r.map_err(|e| (e.kind(), e.to_string()))); let z = |r: io::Result<()>| format!("{:?}", r.map_err(|e| (e.kind(), e.to_string()))); let w = |r: io::Result<u64>| format!("{:?}", r.map_err(|e| (e.kind(), e.to_string())));
    let mut s = format!("s{}", n);
    let out = match k {
        0 => u(d.read(b)), 1 => u(d.read_to_end(b)), 2 => u(d.read_to_string(&mut s)), 3 => z(d.read_exact(b)),
        4 => u(d.write(b)), 5 => { let k = (n as usize).min(b.len()); let (x, y) = b.split_at(k); u(d.write_vectored(&[IoSlice::new(x), IoSlice::new(y), IoSlice::new(b"zz")])) }
        6 => z(d.flush()), 7 => z(d.write_all(b)), 8 => z(d.write_fmt(format_args!("<{}|{:?}>", n, b))),
        9 => w(d.seek(match n % 3 { 0 => SeekFrom::Start(n), 1 => SeekFrom::End(-(n as i64)), _ => SeekFrom::Current(n as i64) })),
        10 => z(d.rewind()), 11 => w(d.stream_position()), _ => z(d.seek_relative(n as i64 - 7)),
    };
    (out, s)
}
#[no_mangle] extern "C" fn t_dev() {
    let mut p = mk_dev(); let mut q = mk_dev();
    for k in 0..13 {
        let n = below(20); let b: Vec<u8> = (0..rand_len()).map(|_| rnd() as u8).collect(); ANS.with(|a| a.set(if coin(3) { u64::MAX } else { rnd() >> 40 }));
        let told = || TOLD.with(|t| std::mem::take(&mut *t.borrow_mut()));
        let (mut b1, mut b2) = (b.clone(), b.clone());
        let r1 = dev_op(k, n, &mut b1, &mut q.pin_mut()); let t1 = told(); let r2 = dev_op(k, n, &mut b2, &mut p); let t2 = told();
        st_ok("dev.one", t1.len() == 1); st_eq("dev.told", &t1, &t2); st_eq("dev.result", &(r1, b1), &(r2, b2));
    }
    let mut n = UniquePtr::<Dev>::null(); for k in 0..13 { let r = catch(|| { dev_op(k, 1, &mut vec![1, 2], &mut n); }); st_ok("dev.null", r.is_err()); }
    TOLD.with(|t| st_ok("dev.null.told", t.borrow().is_empty()));
}
// </std>
